// C08: printed expressions read back as the same expression; print engines get well formed events.
#include <algorithm>
#include <sstream>
#include "../polymodel.h"
#include "../refparser.h"
#include "tsym/plaintextprintengine.h"
#include "tsym/printengine.h"

using namespace vf;
using tsym::Var;

namespace {
    /* Records the events, checks their nesting and writes a text of its own. */
    class Recorder : public tsym::PrintEngine {
      public:
        std::string text, error;
        std::vector<std::string> open;
        unsigned events = 0, undefs = 0, doubles = 0;
        std::set<std::pair<std::string, bool>> symbols;

        PrintEngine& add(const std::string& s)
        {
            ++events;
            text += s;
            return *this;
        }
        PrintEngine& push(const std::string& what, const std::string& s)
        {
            open.push_back(what);
            return add(s);
        }
        PrintEngine& pop(const std::string& what, const std::string& s)
        {
            if (open.empty() || open.back() != what) {
                if (error.empty())
                    error = "closing " + what + " while " + (open.empty() ? "nothing" : open.back()) + " is open";
            } else
                open.pop_back();
            return add(s);
        }
        static std::string full(std::string_view name, std::string_view sub, std::string_view super)
        {
            std::string r(name);
            if (!sub.empty())
                r += sub.size() == 1 ? "_" + std::string(sub) : "_{" + std::string(sub) + "}";
            if (!super.empty())
                r += "^^" + std::string(super);
            return r;
        }
        PrintEngine& symbol(std::string_view name, std::string_view sub, std::string_view super) override
        {
            symbols.emplace(full(name, sub, super), false);
            return add(full(name, sub, super));
        }
        PrintEngine& positiveSymbol(std::string_view name, std::string_view sub, std::string_view super) override
        {
            symbols.emplace(full(name, sub, super), true);
            return add(full(name, sub, super));
        }
        PrintEngine& functionName(std::string_view name) override
        {
            return add(std::string(name));
        }
        PrintEngine& floatingPoint(double n) override
        {
            std::ostringstream s;
            s << n;
            ++doubles;
            return add(s.str());
        }
        PrintEngine& integer(long long n) override
        {
            return add(std::to_string(n));
        }
        PrintEngine& integer(std::string_view n) override
        {
            return add(std::string(n));
        }
        PrintEngine& undefined() override
        {
            ++undefs;
            return add("Undefined");
        }
        PrintEngine& plusSign() override
        {
            return add(" + ");
        }
        PrintEngine& minusSign() override
        {
            return add(" - ");
        }
        PrintEngine& unaryMinusSign() override
        {
            return add("-");
        }
        PrintEngine& timesSign() override
        {
            return add("*");
        }
        PrintEngine& divisionSign() override
        {
            return add("/");
        }
        PrintEngine& comma() override
        {
            return add(", ");
        }
        PrintEngine& openNumerator(bool sum) override
        {
            return push(sum ? "numerator-sum" : "numerator", sum ? "(" : "");
        }
        PrintEngine& closeNumerator(bool sum) override
        {
            return pop(sum ? "numerator-sum" : "numerator", sum ? ")" : "");
        }
        PrintEngine& openDenominator(bool scalar) override
        {
            return push(scalar ? "denominator-scalar" : "denominator", scalar ? "/" : "/(");
        }
        PrintEngine& closeDenominator(bool scalar) override
        {
            return pop(scalar ? "denominator-scalar" : "denominator", scalar ? "" : ")");
        }
        PrintEngine& openScalarExponent() override
        {
            return push("exponent", "^");
        }
        PrintEngine& closeScalarExponent() override
        {
            return pop("exponent", "");
        }
        PrintEngine& openCompositeExponent() override
        {
            return push("composite-exponent", "^(");
        }
        PrintEngine& closeCompositeExponent() override
        {
            return pop("composite-exponent", ")");
        }
        PrintEngine& openSquareRoot() override
        {
            return push("root", "sqrt(");
        }
        PrintEngine& closeSquareRoot() override
        {
            return pop("root", ")");
        }
        PrintEngine& openParentheses() override
        {
            return push("parenthesis", "(");
        }
        PrintEngine& closeParentheses() override
        {
            return pop("parenthesis", ")");
        }
    };

    std::string ascii(const Var& v)
    {
        std::ostringstream s;
        tsym::PlaintextPrintEngine e(s, tsym::PlaintextPrintEngine::CharSet::ASCII);
        tsym::print(e, v);
        return s.str();
    }
    std::string greek(std::string s)
    {
        /* The only greek names that the generators use, never as a part of another name. */
        const std::vector<std::pair<std::string, std::string>> letters{{"pi", "\u03c0"}, {"alpha", "\u03b1"}, {"Alpha", "\u0391"}};
        for (const auto& letter : letters)
            for (size_t p = 0; (p = s.find(letter.first, p)) != std::string::npos; p += letter.second.size())
                s.replace(p, letter.first.size(), letter.second);
        return s;
    }
    bool hasType(const Var& v, Var::Type t)
    {
        if (v.type() == t)
            return true;
        for (const auto& op : tsym::operands(v))
            if (hasType(op, t))
                return true;
        return false;
    }
    /* Numeric factors are distributed into sums depending on the order of operations. */
    bool hasInnerSum(const Var& v, bool top = true)
    {
        if (!top && v.type() == Var::Type::SUM)
            return true;
        for (const auto& op : tsym::operands(v))
            if (hasInnerSum(op, false))
                return true;
        return false;
    }
    void makeNamesUnique(std::vector<SymInfo>& syms)
    {
        std::set<std::string> seen;
        for (auto& s : syms)
            while (!seen.insert(s.name).second)
                s.name += "x";
    }

    void check(Ctx& c, const Ex& e, bool rational)
    {
        c.input(show(e));
        if (estTerms(e) > 300)
            c.discard("too many terms");
        if (!inNumericRange(e))
            c.discard("constants out of range");
        const Var v = build(e);
        if (v.type() == Var::Type::UNDEFINED)
            c.discard("undefined");
        const std::string text = ascii(v);
        Recorder r;
        tsym::print(r, v);
        ++c.checks;
        c.require(r.error.empty() && r.open.empty(), "events", [&] { return text + ": " + (r.error.empty() ? "unclosed " + r.open.back() : r.error); });
        c.require(r.text == text, "events-text", [&] { return "events give " + r.text + ", plain text is " + text; });
        c.require(r.undefs == 0, "events-undefined", [&] { return text; });
        c.require(str(v) == greek(text), "stream-text", [&] { return str(v) + " was streamed, plain text is " + text; });
        std::set<std::pair<std::string, bool>> symbols;
        for (const auto& s : tsym::collectSymbols(v))
            symbols.emplace(tsym::name(s), tsym::isPositive(s));
        if (hasType(v, Var::Type::CONSTANT)) {
            r.symbols.erase({"e", false});
            r.symbols.erase({"pi", false});
        }
        c.require(r.symbols == symbols, "events-symbols", [&] { return text + " doesn't print exactly the symbols of the expression"; });
        const bool dbl = hasType(v, Var::Type::DOUBLE);
        c.require(dbl == (r.doubles > 0), "events-doubles", [&] { return text; });
        if (dbl) {
            c.label("double");
            return; /* Shortened digits. */
        }
        /* The meaning of the text, by an independent parser. */
        Ref ref(text);
        const Ex meaning = ref.whole();
        c.require(meaning != nullptr, "unreadable", [&] { return text + " isn't in the language of the parser"; });
        c.require(!ref.hasDouble, "unreadable", [&] { return text + " has a decimal number"; });
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        bool compared = false;
        const auto parsed = tsym::parse(text);
        c.require(static_cast<bool>(parsed), "rejected", [&] { return text + " is rejected by the parser"; });
        if (rational) {
            const auto x = ratFctOfVar(v), y = ratFctOfVar(*parsed);
            if (x && y)
                c.require(x->n * y->d == y->n * x->d, "not-same-function", [&] { return text + " (" + dump(v) + ") reads back as " + dump(*parsed); });
            if (!hasInnerSum(v))
                c.require(*parsed == v, "not-equal", [&] { return text + " (" + dump(v) + ") reads back as " + dump(*parsed); });
            compared = true;
        }
        for (int i = 0; i < 2; ++i) {
            Env env = randomEnv(c, syms, false);
            const Val want = evalVar(v, env);
            if (!want.ok())
                continue;
            Env byName; /* The sign assumption isn't part of the text. */
            for (const auto& [n, x] : env)
                byName[n.back() == '+' ? n.substr(0, n.size() - 1) : n] = x;
            byName["e"] = vE();
            const Val got = eval(meaning, byName);
            c.require(compare(want, got) != Cmp::DIFFERENT && got.st != Val::St::UNDEF, "text-value",
              [&] { return text + " means " + show(meaning) + " = " + show(got) + ", but the expression " + dump(v) + " has the value " + show(want); });
            c.require(parsed->type() != Var::Type::UNDEFINED, "parsed-undefined", [&] { return text + " reads back as Undefined"; });
            const Val back = evalVar(*parsed, byName);
            c.require(compare(want, back) != Cmp::DIFFERENT, "value",
              [&] { return text + " reads back as " + dump(*parsed) + " = " + show(back) + ", but the expression " + dump(v) + " has the value " + show(want); });
            compared = compared || compare(want, got) == Cmp::EQUAL;
        }
        c.nontrivial(compared && r.events >= 6);
    }

    void any(Ctx& c)
    {
        GenCfg g = anyCfg(c);
        makeNamesUnique(g.syms);
        if (c.chance(30)) {
            static const std::vector<std::string> names{"a_1", "b_{12}", "Ab_x", "xy", "d1_{a2}"};
            for (auto& s : g.syms)
                if (c.chance(40))
                    s.name = c.pick(names);
            makeNamesUnique(g.syms);
        }
        check(c, gen(c, g, static_cast<unsigned>(c.range(2, 20))), false);
    }
    void rationals(Ctx& c)
    {
        GenCfg g = c.chance(80) ? rationalCfg(c) : polyCfg(c);
        for (auto& s : g.syms)
            s.positive = false;
        makeNamesUnique(g.syms);
        check(c, gen(c, g, static_cast<unsigned>(c.range(2, 22))), true);
    }
    void longLists(Ctx& c)
    {
        check(c, genLong(c, 8), false);
    }
    void structured(Ctx& c)
    {
        Ex e;
        switch (c.range(0, 5)) {
            case 0:
                e = genTrigProduct(c);
                break;
            case 1:
                e = genNumericPowerProduct(c);
                break;
            case 2:
                e = genPowerTower(c);
                break;
            case 3:
                e = genLikeTerms(c);
                break;
            case 4:
                e = genComposition(c);
                break;
            default:
                e = genSameBases(c);
        }
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        for (const auto& [n, positive] : syms)
            if (n.back() == '+' && syms.count(n.substr(0, n.size() - 1)) > 0)
                c.discard("symbols with the same name");
        check(c, e, false);
    }
    /* Fractions, signs and powers in every combination of numerator and denominator. */
    void fractions(Ctx& c)
    {
        std::vector<SymInfo> syms = someSymbols(c, 3, 40);
        makeNamesUnique(syms);
        const auto leaf = [&]() -> Ex {
            switch (c.weighted({40, 15, 15, 10, 20})) {
                case 0:
                    return mkSym(c.pick(syms));
                case 1:
                    return mkInt(genInt(c, 9));
                case 2:
                    return mkFrac(genInt(c, 9), c.range(2, 9));
                case 3:
                    return c.chance(50) ? mk(Op::Pi) : mk(Op::E);
                default:
                    return mk(Op::Add, {mkSym(c.pick(syms)), c.chance(50) ? mkInt(genInt(c, 5)) : mkSym(c.pick(syms))});
            }
        };
        const auto factor = [&]() -> Ex {
            Ex b = leaf();
            if (c.chance(20))
                b = mk(c.pick(std::vector<Op>{Op::Sin, Op::Log, Op::Atan, Op::Sqrt}), {b});
            switch (c.weighted({30, 20, 15, 15, 20})) {
                case 0:
                    return b;
                case 1:
                    return mk(Op::Pow, {b, mkInt(genInt(c, 3))});
                case 2:
                    return mk(Op::Pow, {b, fracExponent(c)});
                case 3:
                    return mk(Op::Pow, {b, c.chance(50) ? leaf() : mk(Op::Neg, {leaf()})});
                default:
                    return mk(Op::Div, {mkInt(1), b});
            }
        };
        std::vector<Ex> f;
        for (int i = 0, n = c.range(1, 4); i < n; ++i)
            f.push_back(factor());
        Ex e = f.size() == 1 ? f[0] : mk(Op::Mul, f);
        if (c.chance(30))
            e = mk(Op::Neg, {e});
        if (c.chance(40))
            e = mk(c.chance(50) ? Op::Add : Op::Sub, {leaf(), e});
        if (c.chance(15))
            e = mk(Op::Pow, {e, c.chance(50) ? factor() : mkInt(genInt(c, 2))});
        check(c, e, false);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C08";
    p.rule = "at least 6 print events, and the value of the text was compared at a point (or the object that was read back with the original)";
    p.beforeCase = resetLibrary;
    p.assumptions = {"symbols with the same name and different sign assumptions aren't mixed, since the text doesn't contain the assumption",
      "floating point numbers are printed with few digits, so only the events are checked for them"};
    p.suites.push_back({"any", 40000, 1500000, any});
    p.suites.push_back({"rational", 40000, 1500000, rationals});
    p.suites.push_back({"structured", 30000, 800000, structured});
    p.suites.push_back({"long", 20000, 500000, longLists});
    p.suites.push_back({"fractions", 60000, 1500000, fractions});
    return p;
}
