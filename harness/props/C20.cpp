// C20: no call corrupts memory, changes its operands or fails to return. Built with address and undefined behaviour sanitizers.
#include <algorithm>
#include <memory>
#include <sstream>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include "../refparser.h"
#include "tsym/plaintextprintengine.h"
#include "tsym/solve.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    struct Slot {
        Ex e; /* A recipe with the same value, for the estimation of sizes. */
        Var v;
        std::string text;
    };

    bool suitable(const Ex& e)
    {
        if (countNodes(e) > 30 || estTerms(e) > 16 || !inNumericRange(e) || magnitudeRisk(e) > 60 || doubleRisk(e) > 6)
            return false;
        return true;
    }
    bool simpleExponent(const Ex& e)
    {
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        if (!syms.empty())
            return countNodes(e) <= 3 && magnitudeRisk(e) < 1.5;
        if (e->op == Op::Int)
            return abs(e->num) <= 5;
        return e->op == Op::Frac && abs(e->num) <= 7 && e->den <= 5;
    }
    SymInfo someSymbol(Ctx& c)
    {
        return {c.pick(std::vector<std::string>{"a", "b", "c", "x_1", "alpha"}), c.chance(30)};
    }
    Slot leaf(Ctx& c)
    {
        Ex e;
        switch (c.weighted({40, 20, 12, 8, 6, 6, 8})) {
            case 0:
                e = mkSym(someSymbol(c));
                break;
            case 1:
                e = mkInt(genInt(c, 12));
                break;
            case 2:
                e = mkFrac(genInt(c, 9), c.range(2, 9));
                break;
            case 3:
                e = mk(c.chance(50) ? Op::Pi : Op::E);
                break;
            case 4:
                e = mkInt(genBigInt(c, 25));
                break;
            case 5:
                e = mkDbl(static_cast<double>(c.range(-40, 40)) * 0.13);
                break;
            default:
                e = mkInt(0);
        }
        return {e, build(e), ""};
    }

    template <class F> void tolerate(Ctx& c, const char* what, F f)
    {
        try {
            f();
        } catch (const std::domain_error&) {
            c.label(std::string("thrown:") + what);
        } catch (const std::overflow_error&) {
            c.label(std::string("thrown:") + what);
        } catch (const std::invalid_argument&) {
            c.label(std::string("thrown:") + what);
        }
    }

    class Machine {
      public:
        explicit Machine(Ctx& c)
            : c(c)
        {
            const unsigned n = static_cast<unsigned>(c.range(2, 5));
            for (unsigned i = 0; i < n; ++i)
                pool.push_back(leaf(c));
            for (size_t i = 0; i < pool.size(); ++i) {
                pool[i].text = dump(pool[i].v);
                note(nameOf(i) + " = " + show(pool[i].e));
            }
        }
        void run()
        {
            const unsigned steps = static_cast<unsigned>(c.range(1, 24));
            for (unsigned i = 0; i < steps; ++i) {
                step();
                verify();
            }
            c.nontrivial(effective >= 4);
        }

      private:
        size_t any()
        {
            return c.draw(static_cast<uint32_t>(pool.size()));
        }
        void note(const std::string& s)
        {
            what = s;
            c.input(s);
        }
        std::string nameOf(size_t i) const
        {
            return "v" + std::to_string(i);
        }
        void assign(size_t i, const Ex& e, const Var& v)
        {
            pool[i].e = e;
            pool[i].v = v;
            changed(i);
        }
        void changed(size_t i)
        {
            pool[i].text = dump(pool[i].v);
            if (pool[i].v.type() == Type::UNDEFINED && c.chance(70)) {
                pool[i] = leaf(c);
                pool[i].text = dump(pool[i].v);
            }
            ++effective;
        }
        void verify()
        {
            for (size_t i = 0; i < pool.size(); ++i) {
                const std::string now = dump(pool[i].v);
                ++c.checks;
                c.require(now == pool[i].text, "operand-changed", [&] { return what + " changed " + nameOf(i) + " from " + pool[i].text + " to " + now; });
            }
        }
        void step()
        {
            switch (c.weighted({14, 18, 14, 14, 10, 8, 6, 8, 6, 6, 5, 4, 4})) {
                case 0: {
                    const size_t i = any();
                    pool[i] = leaf(c);
                    note(nameOf(i) + " = " + show(pool[i].e));
                    changed(i);
                    break;
                }
                case 1:
                    compound();
                    break;
                case 2:
                    binary();
                    break;
                case 3:
                    function();
                    break;
                case 4:
                    power();
                    break;
                case 5:
                    transform();
                    break;
                case 6:
                    queries();
                    break;
                case 7:
                    copies();
                    break;
                case 8:
                    substitution();
                    break;
                case 9:
                    differentiation();
                    break;
                case 10:
                    system();
                    break;
                case 11:
                    containers();
                    break;
                default:
                    parsing();
            }
        }
        void compound()
        {
            const size_t i = any(), j = any();
            const unsigned k = c.draw(4);
            const std::vector<Op> ops{Op::Add, Op::Sub, Op::Mul, Op::Div};
            const Ex e = mk(ops[k], {pool[i].e, pool[j].e});
            if (!suitable(e))
                return;
            note(nameOf(i) + " " + "+-*/"[k] + "= " + nameOf(j));
            Var& v = pool[i].v;
            const Var& w = pool[j].v;
            const Var copy(v);
            const std::string before = pool[i].text;
            Var& r = k == 0 ? v += w : k == 1 ? v -= w : k == 2 ? v *= w : v /= w;
            c.require(&r == &v, "reference", [&] { return what; });
            c.require(dump(copy) == before, "copy-changed", [&] { return what + ": " + before + " became " + dump(copy); });
            /* The same as the binary operator. */
            if (i != j) {
                const Var s = k == 0 ? copy + w : k == 1 ? copy - w : k == 2 ? copy * w : copy / w;
                c.require(dump(s) == dump(v), "compound", [&] { return what + ": " + dump(v) + ", but the operator gives " + dump(s); });
            } else {
                const Var s = k == 0 ? copy + copy : k == 1 ? copy - copy : k == 2 ? copy * copy : copy / copy;
                c.require(dump(s) == dump(v), "compound-aliased", [&] { return what + ": " + dump(v) + ", but the operator gives " + dump(s); });
                c.label("aliased");
            }
            pool[i].e = e;
            changed(i);
        }
        void binary()
        {
            const size_t i = any(), j = any(), k = any();
            const unsigned op = c.draw(6);
            const std::vector<Op> ops{Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Neg, Op::Atan2};
            const Ex e = op == 4 ? mk(Op::Neg, {pool[i].e}) : mk(ops[op], {pool[i].e, pool[j].e});
            if (!suitable(e))
                return;
            note(nameOf(k) + " = " + show(mk(ops[op], {mkSym({nameOf(i), false}), mkSym({nameOf(j), false})})));
            const Var &v = pool[i].v, &w = pool[j].v;
            Var r;
            switch (op) {
                case 0:
                    r = v + w;
                    break;
                case 1:
                    r = v - w;
                    break;
                case 2:
                    r = v * w;
                    break;
                case 3:
                    r = v / w;
                    break;
                case 4:
                    r = -v;
                    break;
                default:
                    r = tsym::atan2(v, w);
            }
            verify();
            assign(k, e, r);
        }
        void function()
        {
            const size_t i = any(), k = any();
            const std::vector<Op> ops{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan, Op::Log, Op::Sqrt};
            const Op op = c.pick(ops);
            const Ex e = mk(op, {pool[i].e});
            if (!suitable(e) || depthOf(e) > 7)
                return;
            note(nameOf(k) + " = " + show(mk(op, {mkSym({nameOf(i), false})})));
            const Var& v = pool[i].v;
            Var r;
            switch (op) {
                case Op::Sin:
                    r = tsym::sin(v);
                    break;
                case Op::Cos:
                    r = tsym::cos(v);
                    break;
                case Op::Tan:
                    r = tsym::tan(v);
                    break;
                case Op::Asin:
                    r = tsym::asin(v);
                    break;
                case Op::Acos:
                    r = tsym::acos(v);
                    break;
                case Op::Atan:
                    r = tsym::atan(v);
                    break;
                case Op::Log:
                    r = tsym::log(v);
                    break;
                default:
                    r = tsym::sqrt(v);
            }
            verify();
            assign(k, e, r);
        }
        void power()
        {
            const size_t i = any(), j = any(), k = any();
            const bool fresh = c.chance(70);
            const Ex x = fresh ? (c.chance(70) ? mkInt(c.range(-4, 4)) : mkFrac(c.range(-7, 7), c.range(2, 5))) : pool[j].e;
            const Ex e = mk(Op::Pow, {pool[i].e, x});
            if (!simpleExponent(x) || !suitable(e) || depthOf(e) > 7)
                return;
            note(nameOf(k) + " = pow(" + nameOf(i) + ", " + (fresh ? show(x) : nameOf(j)) + ")");
            const Var r = tsym::pow(pool[i].v, fresh ? build(x) : pool[j].v);
            verify();
            assign(k, e, r);
        }
        void transform()
        {
            const size_t i = any(), k = any();
            const unsigned op = c.draw(5);
            static const char* const names[]{"expand", "normal", "simplify", "numerator", "denominator"};
            note(nameOf(k) + " = " + names[op] + "(" + nameOf(i) + ")");
            const Var& v = pool[i].v;
            const Var r = op == 0 ? tsym::expand(v) : op == 1 ? tsym::normal(v) : op == 2 ? tsym::simplify(v) : op == 3 ? tsym::numerator(v) : tsym::denominator(v);
            c.label(std::string("op:") + names[op]);
            verify();
            if (op < 3)
                assign(k, pool[i].e, r);
            else
                (void)dump(r);
        }
        void queries()
        {
            const size_t i = any(), j = any();
            note("queries of " + nameOf(i) + " and " + nameOf(j));
            const Var &v = pool[i].v, &w = pool[j].v;
            std::ostringstream s, ascii;
            s << v << w << v.type();
            tsym::PlaintextPrintEngine engine(ascii, tsym::PlaintextPrintEngine::CharSet::ASCII);
            tsym::print(engine, v);
            const auto ops = tsym::operands(v);
            const auto symbols = tsym::collectSymbols(v);
            const std::string name = tsym::name(v);
            const bool same = v == w, different = v != w;
            c.require(same != different, "equality", [&] { return what; });
            (void)tsym::has(v, w);
            (void)tsym::isPositive(v);
            (void)tsym::isNegative(w);
            (void)tsym::complexity(v);
            c.require(std::hash<Var>{}(v) == std::hash<Var>{}(Var(v)), "hash", [&] { return what; });
            tolerate(c, "int", [&] { (void)static_cast<int>(v); });
            tolerate(c, "double", [&] { (void)static_cast<double>(v); });
        }
        void copies()
        {
            const size_t i = any(), j = any();
            switch (c.draw(5)) {
                case 0: {
                    note(nameOf(i) + " = " + nameOf(i));
                    Var& alias = pool[i].v;
                    pool[i].v = alias;
                    break;
                }
                case 1:
                    note(nameOf(i) + " = " + nameOf(j));
                    pool[i].v = pool[j].v;
                    pool[i].e = pool[j].e;
                    pool[i].text = pool[j].text;
                    break;
                case 2: {
                    note("move of " + nameOf(i) + " and back");
                    Var tmp(std::move(pool[i].v));
                    pool[i].v = std::move(tmp);
                    break;
                }
                case 3:
                    note("swap of " + nameOf(i) + " and " + nameOf(j));
                    std::swap(pool[i].v, pool[j].v);
                    std::swap(pool[i].e, pool[j].e);
                    std::swap(pool[i].text, pool[j].text);
                    break;
                default: {
                    note("modified copy of " + nameOf(i));
                    Var copy(pool[i].v);
                    copy += 1;
                    copy *= Var("q");
                    Var other;
                    other = pool[i].v;
                    other -= other;
                    (void)+other;
                }
            }
            c.label("copies");
        }
        void substitution()
        {
            const size_t i = any(), j = any(), k = any();
            const SymInfo x = someSymbol(c);
            const bool whole = c.chance(30);
            if (pool[i].v.type() == Type::UNDEFINED)
                return;
            const Ex e = replace(pool[i].e, x, pool[j].e);
            if (!suitable(e) || depthOf(e) > 9 || !powersOk(e))
                return;
            note(nameOf(k) + " = subst(" + nameOf(i) + ", " + (whole ? nameOf(j) : x.name) + ", " + (whole ? "q" : nameOf(j)) + ")");
            if (whole) {
                const Var r = tsym::subst(pool[i].v, pool[j].v, Var("q"));
                (void)dump(r);
                return;
            }
            const Var r = tsym::subst(pool[i].v, symVar(x), pool[j].v);
            verify();
            assign(k, e, r);
        }
        static bool powersOk(const Ex& e)
        {
            if (e->op == Op::Pow && !simpleExponent(e->args[1]))
                return false;
            for (const auto& a : e->args)
                if (!powersOk(a))
                    return false;
            return true;
        }
        static Ex replace(const Ex& e, const SymInfo& x, const Ex& by)
        {
            if (e->op == Op::Sym)
                return e->sym.name == x.name && e->sym.positive == x.positive ? by : e;
            if (e->args.empty())
                return e;
            std::vector<Ex> a;
            for (const auto& y : e->args)
                a.push_back(replace(y, x, by));
            return mk(e->op, a);
        }
        void differentiation()
        {
            const size_t i = any(), j = any();
            const SymInfo x = someSymbol(c);
            const bool invalid = c.chance(20);
            note("diff(" + nameOf(i) + ", " + (invalid ? nameOf(j) : x.name) + ")");
            const Var d = tsym::diff(pool[i].v, invalid ? pool[j].v : symVar(x));
            (void)dump(d);
        }
        void system()
        {
            const size_t n = 2;
            std::vector<std::vector<Var>> A(n, std::vector<Var>(n));
            std::vector<Var> b(n), x(n);
            std::string s;
            size_t nodes = 0;
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < n; ++j) {
                    const size_t k = any();
                    A[i][j] = pool[k].v;
                    nodes += countNodes(pool[k].e);
                    s += nameOf(k) + " ";
                    if (countNodes(pool[k].e) > 6 || contains(pool[k].e, Op::Dbl))
                        return;
                }
                const size_t k = any();
                b[i] = pool[k].v;
                if (countNodes(pool[k].e) > 6 || contains(pool[k].e, Op::Dbl))
                    return;
            }
            /* Subresultant greatest common divisors of nested functions grow exponentially. */
            if (nodes > 12)
                return;
            note("linear system with " + s);
            const auto algo = c.chance(50) ? tsym::Algo::Gauss : tsym::Algo::GaussLCPivot;
            tolerate(c, "solve", [&] { tsym::solve(A, b, x, n, algo); });
            tolerate(c, "determinant", [&] { (void)dump(tsym::determinant(A, n, algo)); });
            tolerate(c, "invert", [&] { tsym::invert(A, n, algo); });
            for (const auto& row : A)
                for (const auto& y : row)
                    (void)dump(y);
            c.label("op:system");
        }
        void containers()
        {
            note("containers of all variables");
            std::unordered_set<Var> set;
            std::unordered_map<Var, int> map;
            std::vector<Var> list;
            for (const auto& s : pool) {
                set.insert(s.v);
                ++map[s.v];
                list.push_back(s.v);
            }
            list.erase(list.begin());
            list.insert(list.begin(), list.back());
            set.clear();
        }
        void parsing()
        {
            const size_t i = any();
            if (pool[i].v.type() == Type::UNDEFINED)
                return;
            note("parse of the text of " + nameOf(i));
            std::ostringstream stream;
            tsym::PlaintextPrintEngine engine(stream, tsym::PlaintextPrintEngine::CharSet::ASCII);
            tsym::print(engine, pool[i].v);
            const auto p = tsym::parse(stream.str());
            if (p)
                (void)dump(*p);
            c.label("op:parse");
        }

        Ctx& c;
        std::vector<Slot> pool;
        std::string what;
        unsigned effective = 0;
    };

    void machine(Ctx& c)
    {
        Machine(c).run();
    }

    /* Arbitrary strings for all functions that read strings. */
    void strings(Ctx& c)
    {
        std::string s;
        const unsigned kind = c.draw(5);
        const unsigned n = static_cast<unsigned>(c.range(0, 24));
        if (kind == 4) {
            /* Long, mostly valid text. */
            static const std::vector<std::string> terms{"a", "b_1", "c_{12}", "1", "2.5", "-a", "sin(a)", "a*b", "a/3", "(a+b)", "a^2", "pi", "log(2)", "1234567"};
            for (unsigned i = 0; i < n; ++i)
                s += (i > 0 ? c.pick(std::vector<std::string>{"+", " + ", "-", " - "}) : "") + c.pick(terms);
        } else if (kind == 0)
            for (unsigned i = 0; i < n; ++i)
                s += static_cast<char>(c.draw(256));
        else if (kind == 1) {
            static const std::string set = "ab1 2.+-*/^()_{},e#\t\n";
            for (unsigned i = 0; i < n; ++i)
                s += set[c.draw(static_cast<uint32_t>(set.size()))];
        } else {
            static const std::vector<std::string> tokens{"a", "b_1", "c_{12}", "1", "2.5", "3", "+", "-", "*", "/", "^(2)", "(", ")", "sin(", "log(", "sqrt(", "atan2(", ",",
              "pi", "euler", " ", "alpha", "_", "{", "}", "e", "1e1", ".5", "tmp#1", "tmp#", "Undefined"};
            for (unsigned i = 0; i < n; ++i)
                s += c.pick(tokens);
            if (kind == 3 && !s.empty())
                s[c.draw(static_cast<uint32_t>(s.size()))] = static_cast<char>(c.draw(256));
        }
        std::string shown;
        unsigned carets = 0, run = 0, maxRun = 0, depth = 0;
        bool real = false;
        for (const char ch : s) {
            char buf[8];
            std::snprintf(buf, sizeof buf, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", static_cast<unsigned char>(ch));
            shown += buf;
            carets += ch == '^';
            depth += ch == '(';
            if (ch >= '0' && ch <= '9')
                maxRun = std::max(maxRun, ++run);
            else {
                real = real || (run > 0 && (ch == 'e' || ch == 'E' || ch == '.'));
                run = 0;
            }
        }
        c.input("'" + shown + "'");
        const bool literal = carets == 0 || (carets == 1 && maxRun <= 2 && !real) || kind >= 2;
        if (!literal || (kind == 2 && carets > 3) || (kind == 3 && carets > 3))
            c.discard("possibly a huge power");
        std::optional<Var> p;
        /* There is no null character after the text. */
        const std::unique_ptr<char[]> buffer(new char[s.size()]);
        std::copy(s.begin(), s.end(), buffer.get());
        const std::string_view text(buffer.get(), s.size());
        p = tsym::parse(text);
        ++c.checks;
        c.label(p ? "accepted" : "rejected");
        if (p) {
            (void)dump(*p);
            const Var copy(*p);
            *p += 1;
            (void)dump(copy);
        }
        const Var v(text), w(text, Var::Sign::POSITIVE);
        c.require(std::equal(s.begin(), s.end(), buffer.get()), "text-changed", [&] { return shown; });
        (void)dump(v);
        (void)dump(w);
        c.label(std::string("Var:") + typeName(v.type()));
        (void)(v + w);
        (void)tsym::name(v);
        c.nontrivial(n > 2);
    }

    /* Small expressions: everything returns within a bound that is far beyond the usual time. */
    void termination(Ctx& c)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        Ex e;
        switch (c.weighted({50, 12, 12, 12, 14})) {
            case 0:
                e = gen(c, g, static_cast<unsigned>(c.range(2, 8)));
                break;
            case 1:
                e = genNumericPowerProduct(c);
                break;
            case 2:
                e = genSameBases(c);
                break;
            case 3:
                e = genTrigProduct(c);
                break;
            default: {
                /* Sums of radicals. */
                std::vector<Ex> s;
                for (unsigned i = 0, n = static_cast<unsigned>(c.range(2, 3)); i < n; ++i)
                    s.push_back(mk(Op::Mul, {mkFrac(genInt(c, 9), c.range(1, 9)), mk(Op::Pow, {mkFrac(c.range(2, 60), c.range(1, 30)), mkFrac(c.range(-3, 3), c.range(2, 6))})}));
                e = mk(Op::Add, s);
            }
        }
        c.input(show(e));
        if (countNodes(e) > 20 || estTerms(e) > 12 || !inNumericRange(e) || magnitudeRisk(e) > 40 || contains(e, Op::Dbl) || contains(e, Op::Atan2))
            c.discard("out of range");
        c.label("profile:" + profile);
        const Var v = build(e);
        const std::string before = dump(v);
        (void)dump(tsym::expand(v));
        (void)dump(tsym::simplify(v));
        (void)dump(tsym::diff(v, Var("a")));
        c.require(dump(v) == before, "operand-changed", [&] { return before + " became " + dump(v); });
        ++c.checks;
        c.nontrivial(countNodes(e) > 3);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C20";
    p.rule = "machine: at least four steps changed a variable; strings: more than two tokens; termination: more than three nodes";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 60;
    p.timeoutIsViolation = true;
    p.suites.push_back({"machine", 24000, 600000, machine});
    p.suites.push_back({"strings", 40000, 1000000, strings});
    p.suites.push_back({"termination", 12000, 300000, termination});
    return p;
}
