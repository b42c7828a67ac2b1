// C09: the parser accepts exactly its grammar and builds what is written.
#include <cctype>
#include <cstdlib>
#include <set>
#include "../refparser.h"

using namespace vf;
using tsym::Var;

namespace {
    /* Keeps away from numbers that can't be represented. */
    void guard(Ctx& c, const Ex& e)
    {
        for (const auto& a : e->args)
            guard(c, a);
        if (e->op == Op::Dbl && (std::abs(e->dbl) > 1e9 || (e->dbl != 0 && std::abs(e->dbl) < 1e-9)))
            c.discard("double out of range");
        if (e->op != Op::Pow)
            return;
        std::map<std::string, bool> syms;
        symbolsOf(e->args[1], syms);
        Env one; /* Symbols could cancel out. */
        for (const auto& [n, positive] : syms)
            one[n] = vRat(1, 1);
        const Val x = eval(e->args[1], one);
        if (!syms.empty() && !x.ok())
            return;
        if (x.ok() && abs(x.v) > 40 && e->args[0]->op != Op::Sym)
            c.discard("exponent too large");
        if (!x.ok() && syms.empty() && e->args[0]->op != Op::Sym)
            c.discard("exponent undefined");
        if (depthOf(e->args[0]) > 1 && contains(e->args[0], Op::Pow) && x.ok() && abs(x.v) > 8)
            c.discard("exponent too large");
    }
    void guardRejected(Ctx& c, const std::string& s)
    {
        unsigned carets = 0, run = 0, maxRun = 0, digits = 0;
        bool real = false;
        for (size_t i = 0; i < s.size(); ++i) {
            carets += s[i] == '^';
            if (Ref::digit(s[i])) {
                maxRun = std::max(maxRun, ++run);
                ++digits;
            } else {
                real = real || (run > 0 && (s[i] == 'e' || s[i] == 'E' || s[i] == '.'));
                run = 0;
            }
        }
        if ((carets >= 2 && digits > 0) || (carets == 1 && (maxRun > 2 || real)))
            c.discard("possibly a huge power in a rejected string");
    }

    bool hasNumericAtan2(const Ex& e)
    {
        std::map<std::string, bool> syms;
        if (e->op == Op::Atan2)
            symbolsOf(e, syms);
        if (e->op == Op::Atan2 && syms.empty())
            return true;
        for (const auto& a : e->args)
            if (hasNumericAtan2(a))
                return true;
        return false;
    }

    std::string quoted(const std::string& s)
    {
        std::string r = "'";
        for (const char ch : s)
            if (ch >= 32 && ch < 127)
                r += ch;
            else {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\x%02x", static_cast<unsigned char>(ch));
                r += buf;
            }
        return r + "'";
    }

    void check(Ctx& c, const std::string& text)
    {
        c.input(quoted(text));
        bool ascii = true;
        for (const char ch : text)
            ascii = ascii && static_cast<unsigned char>(ch) < 128;
        Ref ref(text);
        const Ex want = ascii ? ref.whole() : nullptr;
        if (ref.maxDepth > 60)
            c.discard("too deep");
        if (ref.extreme)
            c.discard("double out of range");
        if (want) {
            guard(c, want);
            if (!inNumericRange(want))
                c.discard("constants out of range");
            if (estTerms(want) > 300)
                c.discard("too many terms");
        } else
            guardRejected(c, text);
        BuildOpts o;
        o.noNumericAtan2 = false;
        std::optional<Var> got;
        try {
            got = tsym::parse(text);
        } catch (const std::exception& e) {
            /* Numbers that are too small or large for a double: not the parser's fault, if the operators fail alike. */
            bool alike = false;
            try {
                if (want)
                    build(want, o);
            } catch (const std::exception&) {
                alike = true;
            }
            if (alike)
                c.discard("operators throw for the same operations");
            c.fail("exception", quoted(text) + ": " + e.what());
        }
        ++c.checks;
        c.label(want ? "accepted" : "rejected");
        c.require(static_cast<bool>(got) == static_cast<bool>(want), got ? "accepted-invalid" : "rejected-valid",
          [&] { return quoted(text) + (want ? " means " + show(want) : " isn't in the language") + (got ? ", but is accepted as " + dump(*got) : ", but is rejected"); });
        if (!want)
            return;
        const Var v = build(want, o);
        for (const auto& s : tsym::collectSymbols(*got)) {
            c.require(ref.names.count(tsym::name(s)) == 1, "symbol-name", [&] { return quoted(text) + " yields the symbol " + tsym::name(s); });
            c.require(!tsym::isPositive(s), "symbol-positive", [&] { return quoted(text); });
        }
        const bool same = dump(*got) == dump(v);
        if (!ref.hasDouble || same) { /* Decimal numbers could differ by rounding. */
            c.require(same, "object", [&] { return quoted(text) + " gives " + dump(*got) + ", but should be " + dump(v); });
            if (v.type() != Var::Type::UNDEFINED)
                c.require(*got == v, "equal", [&] { return quoted(text) + " gives " + dump(*got); });
            c.nontrivial(countNodes(want) >= 4);
            return;
        }
        c.label("compared by value");
        std::map<std::string, bool> syms;
        symbolsOf(want, syms);
        const Env env = randomEnv(c, syms, false);
        if (doubleRisk(want) > 9 || hasNumericAtan2(want))
            return;
        const Val a = eval(want, env);
        if (!a.ok())
            return;
        const Val b = evalVar(*got, env);
        if (b.ok())
            c.require(compare(a, b) != Cmp::DIFFERENT, "value",
              [&] { return quoted(text) + " gives " + dump(*got) + " with value " + show(b) + ", expected " + show(a); });
        c.nontrivial(b.ok() && countNodes(want) >= 4);
    }

    /* ---- Text generation ---- */
    std::string ws(Ctx& c)
    {
        if (!c.chance(25))
            return "";
        static const std::vector<std::string> v{" ", "  ", "\t", "\n", " \r", "\v", "\f "};
        return c.pick(v);
    }
    std::string randomCase(Ctx& c, std::string s)
    {
        if (c.chance(20))
            for (auto& ch : s)
                if (c.chance(50))
                    ch = static_cast<char>(std::toupper(ch));
        return s;
    }
    std::string scalarText(Ctx& c)
    {
        static const std::vector<std::string> syms{"a", "b", "x", "pitch", "eulers", "sine", "sin", "atan2", "a1", "E", "e", "PIx", "logb", "aBc1", "inf", "nan", "pi2"};
        static const std::vector<std::string> subs{"_1", "_b", "_{12}", "_{ab}", "_{3}"};
        switch (c.weighted({8, 8, 2, 2, 3, 1, 2})) {
            case 0:
                return c.pick(syms);
            case 1:
                return std::to_string(c.range(0, c.chance(20) ? 1000 : 12));
            case 2:
                return c.pick(syms) + c.pick(subs);
            case 3:
                return randomCase(c, c.chance(50) ? "pi" : "euler");
            case 4: {
                static const std::vector<std::string> reals{"1.5", "0.25", ".5", "3.", "1e2", "2.5e1", "1.e1", "2.5E-1", "1.5e+1", "0.125", "10.0", "1e0"};
                return c.pick(reals);
            }
            case 5: {
                std::string s = std::to_string(c.range(1, 9));
                for (int i = 0, n = c.range(8, 24); i < n; ++i)
                    s += static_cast<char>('0' + c.draw(10));
                return s;
            }
            default:
                return "0" + std::to_string(c.range(0, 99));
        }
    }
    std::string exprText(Ctx& c, unsigned budget);
    std::string operandText(Ctx& c, unsigned budget)
    {
        if (budget <= 1 || c.chance(25))
            return ws(c) + scalarText(c);
        if (c.chance(45))
            return ws(c) + "(" + exprText(c, budget - 1) + ws(c) + ")";
        static const std::vector<std::string> fcts{"sin", "cos", "tan", "asin", "acos", "atan", "log", "sqrt"};
        if (c.chance(12))
            return ws(c) + randomCase(c, "atan2") + ws(c) + "(" + exprText(c, budget / 2) + ws(c) + "," + exprText(c, budget / 2) + ws(c) + ")";
        return ws(c) + randomCase(c, c.pick(fcts)) + ws(c) + "(" + exprText(c, budget - 1) + ws(c) + ")";
    }
    int caretsLeft = 0;
    std::string factorText(Ctx& c, unsigned budget)
    {
        std::string s = operandText(c, budget);
        static const std::vector<std::string> exps{"2", "a", "3", "x_1", "1", "0", "b", "E"};
        if (caretsLeft > 0 && c.chance(caretsLeft > 2 ? 25 : 10)) {
            const int n = std::min(caretsLeft, c.range(1, 2));
            caretsLeft -= n;
            for (int i = 0; i < n; ++i)
                s += ws(c) + "^" + (caretsLeft < 2 || c.chance(75) ? ws(c) + c.pick(exps) : operandText(c, budget / 3));
        }
        return s;
    }
    std::string exprText(Ctx& c, unsigned budget)
    {
        std::string s;
        if (c.chance(6))
            s += ws(c) + "+";
        const int terms = c.range(1, budget > 3 ? 3 : 2);
        for (int i = 0; i < terms; ++i) {
            if (i > 0)
                s += ws(c) + (c.chance(50) ? "+" : "-");
            const int factors = c.range(1, 2) + (c.chance(15) ? 1 : 0);
            for (int k = 0; k < factors; ++k) {
                if (k > 0)
                    s += ws(c) + (c.chance(60) ? "*" : "/");
                if (c.chance(15))
                    s += ws(c) + "-";
                s += factorText(c, budget / static_cast<unsigned>(terms * factors));
            }
        }
        return s;
    }

    void grammar(Ctx& c)
    {
        caretsLeft = 6;
        check(c, exprText(c, static_cast<unsigned>(c.range(2, 30))) + ws(c));
    }

    void mutation(Ctx& c)
    {
        caretsLeft = c.chance(50) ? 1 : 0;
        std::string s = exprText(c, static_cast<unsigned>(c.range(2, 14)));
        static const std::string chars = "ab1203.e+-*/^()_{}, \tsinxpi,!\"$%&=?;:'#~<>|[]\\@";
        const int n = c.range(1, 3);
        for (int i = 0; i < n && !s.empty(); ++i) {
            const size_t p = c.draw(static_cast<uint32_t>(s.size()));
            switch (c.range(0, 4)) {
                case 0:
                    s.erase(p, 1);
                    break;
                case 1:
                    s.insert(p, 1, chars[c.draw(static_cast<uint32_t>(chars.size()))]);
                    break;
                case 2:
                    s[p] = chars[c.draw(static_cast<uint32_t>(chars.size()))];
                    break;
                case 3:
                    s.resize(p);
                    break;
                default:
                    if (p + 1 < s.size())
                        std::swap(s[p], s[p + 1]);
            }
        }
        check(c, s);
    }

    void tokens(Ctx& c)
    {
        static const std::vector<std::string> toks{"a", "b", "1", "2", "+", "-", "*", "/", "^", "(", ")", "sin(", "sqrt(", "atan2(", ",", " ", ".",
          "e", "1e", "_", "_{", "}", "pi", "euler", "log", "atan", "3.5", "x_1", "y_{ab}", "PI", "Sin(", "  ", "\n", "--", "()"};
        std::string s;
        const int n = c.range(0, 9);
        for (int i = 0; i < n; ++i)
            s += c.pick(toks);
        check(c, s);
    }

    void bytes(Ctx& c)
    {
        std::string s;
        const int n = c.range(0, 12);
        const bool ascii = c.chance(60);
        for (int i = 0; i < n; ++i)
            s += static_cast<char>(ascii ? c.draw(128) : c.draw(256));
        if (c.chance(40)) { /* A valid expression with a single foreign byte. */
            caretsLeft = c.chance(30) ? 1 : 0;
            s = exprText(c, 6);
            s.insert(c.draw(static_cast<uint32_t>(s.size() + 1)), 1, static_cast<char>(c.draw(256)));
        }
        check(c, s);
    }
    /* A single number in any notation. */
    void literals(Ctx& c)
    {
        std::string text;
        const auto digits = [&](int n) {
            for (int i = 0; i < n; ++i)
                text += static_cast<char>('0' + c.draw(10));
        };
        digits(c.range(1, c.chance(30) ? 40 : 19));
        const bool integer = c.chance(40);
        if (!integer) {
            if (text.size() > 1 && text[0] == '0')
                text[0] = '7'; /* boost::spirit loses digits after 17 leading zeros. */
            const bool point = c.chance(80);
            if (point) {
                text += '.';
                digits(c.range(1, c.chance(20) ? 25 : 9));
            }
            if (!point || c.chance(30)) {
                text += c.chance(50) ? 'e' : 'E';
                const int e = c.range(0, 25);
                if (c.chance(30))
                    text += c.chance(50) ? '-' : '+';
                text += std::to_string(text.back() == '-' ? e % 7 : e);
            }
        }
        c.input(text);
        Ref ref(text);
        const Ex want = ref.whole();
        c.require(want != nullptr, "reference", [&] { return text; });
        const auto got = tsym::parse(text);
        c.require(static_cast<bool>(got), "rejected-valid", [&] { return text; });
        ++c.checks;
        if (want->op != Op::Dbl) {
            size_t i = 0;
            while (i + 1 < text.size() && text[i] == '0')
                ++i;
            c.require(got->type() == Var::Type::INT && str(*got) == text.substr(i), "integer", [&] { return text + " becomes " + dump(*got); });
        } else {
            const double d = std::strtod(text.c_str(), nullptr);
            if (d != 0 && std::abs(d) < 1e-6)
                c.discard("tiny");
            c.require(std::abs(static_cast<double>(*got) - d) <= 3e-15 * std::abs(d), "double", [&] { return text + " becomes " + dump(*got); });
        }
        c.nontrivial(text.size() > 4);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C09";
    p.rule = "the string is accepted, its syntax tree has at least 4 nodes, and the object (or value, with decimal numbers) was compared; "
             "rejections are counted by label";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 6;
    p.assumptions = {"nesting depth up to 60, numeric exponents up to 40"};
    p.suites.push_back({"grammar", 60000, 2000000, grammar});
    p.suites.push_back({"mutation", 80000, 2000000, mutation});
    p.suites.push_back({"tokens", 80000, 2000000, tokens});
    p.suites.push_back({"literals", 40000, 500000, literals});
    p.suites.push_back({"bytes", 40000, 1000000, bytes});
    return p;
}
