// C15: type, name, operands, has and collectSymbols describe the expression faithfully.
#include <set>
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    bool isNumber(const Var& v)
    {
        return v.type() == Type::INT || v.type() == Type::FRACTION || v.type() == Type::DOUBLE;
    }
    bool isNumericPower(const Var& v)
    {
        return v.type() == Type::POWER && isNumber(tsym::operands(v)[0]) && isNumber(tsym::operands(v)[1]);
    }
    const std::set<std::string> unary{"sin", "cos", "tan", "asin", "acos", "atan", "log"};

    void shape(Ctx& c, const Var& v, const Var& whole)
    {
        const auto what = [&] { return dump(v) + " in " + dump(whole); };
        const auto ops = tsym::operands(v);
        const std::string name = tsym::name(v);
        ++c.checks;
        c.require(v.type() != Type::UNDEFINED, "undefined-operand", what);
        for (const auto& o : ops)
            shape(c, o, whole);
        switch (v.type()) {
            case Type::SUM:
            case Type::PRODUCT: {
                unsigned numbers = 0;
                c.require(name.empty(), "name", what);
                c.require(ops.size() >= 2, "operand-count", what);
                for (size_t i = 0; i < ops.size(); ++i) {
                    c.require(ops[i].type() != v.type(), "nested", what);
                    numbers += isNumber(ops[i]);
                    c.require(ops[i] != 0 && (v.type() == Type::SUM || ops[i] != 1), "neutral", what);
                    for (size_t j = 0; j < i; ++j) /* sqrt(a)*sqrt(a) isn't contracted, because it could be undefined. */
                        c.require(ops[i] != ops[j] || hasUndeterminedRoot(ops[i]), "repeated", what);
                }
                c.require(numbers <= 1, "numbers", what);
                break;
            }
            case Type::POWER:
                c.require(name.empty() && ops.size() == 2, "operand-count", what);
                c.require(ops[1] != 0 && ops[1] != 1 && ops[0] != 0 && ops[0] != 1, "trivial-power", what);
                break;
            case Type::FUNCTION:
                c.require(name == "atan2" ? ops.size() == 2 : (unary.count(name) == 1 && ops.size() == 1), "function", what);
                break;
            case Type::SYMBOL:
                c.require(!name.empty() && ops.empty(), "symbol", what);
                break;
            case Type::CONSTANT:
                c.require((name == "pi" || name == "e") && ops.empty(), "constant", [&] { return what() + " named " + name; });
                c.require(v == (name == "pi" ? tsym::pi() : tsym::euler()), "constant", what);
                break;
            default:
                c.require(isNumber(v) && name.empty() && ops.empty(), "number", what);
        }
    }

    Var rebuild(const Var& v, bool deep)
    {
        auto ops = tsym::operands(v);
        if (deep)
            for (auto& o : ops)
                o = rebuild(o, deep);
        switch (v.type()) {
            case Type::SUM: {
                Var r = ops[0];
                for (size_t i = 1; i < ops.size(); ++i)
                    r += ops[i];
                return r;
            }
            case Type::PRODUCT: {
                /* A numeric factor is distributed over a sum if there is no other factor. */
                const auto numeric = [](const Var& f) { return isNumber(f) || isNumericPower(f); };
                const auto sum = [](const Var& f) { return f.type() == Type::SUM; };
                Var r(1);
                for (const auto& o : ops)
                    if (!numeric(o) && !sum(o))
                        r *= o;
                const bool sumsFirst = r == 1;
                for (const bool sums : {sumsFirst, !sumsFirst})
                    for (const auto& o : ops)
                        if ((sums && sum(o)) || (!sums && numeric(o)))
                            r *= o;
                return r;
            }
            case Type::POWER:
                return tsym::pow(ops[0], ops[1]);
            case Type::FUNCTION: {
                const std::string n = tsym::name(v);
                if (n == "sin")
                    return tsym::sin(ops[0]);
                if (n == "cos")
                    return tsym::cos(ops[0]);
                if (n == "tan")
                    return tsym::tan(ops[0]);
                if (n == "asin")
                    return tsym::asin(ops[0]);
                if (n == "acos")
                    return tsym::acos(ops[0]);
                if (n == "atan")
                    return tsym::atan(ops[0]);
                if (n == "log")
                    return tsym::log(ops[0]);
                return tsym::atan2(ops[0], ops[1]);
            }
            case Type::CONSTANT:
                return tsym::name(v) == "pi" ? tsym::pi() : tsym::euler();
            case Type::SYMBOL: {
                const std::string n = tsym::name(v);
                return tsym::isPositive(v) ? Var(n, Var::Sign::POSITIVE) : Var(n);
            }
            case Type::INT:
            case Type::FRACTION: {
                const BigRat q = exactOf(v);
                return ratVar(numerator(q), denominator(q));
            }
            case Type::DOUBLE:
                return Var(static_cast<double>(v));
            default:
                return v;
        }
    }

    void subtrees(const Var& v, std::vector<Var>& all)
    {
        all.push_back(v);
        for (const auto& o : tsym::operands(v))
            subtrees(o, all);
    }

    void query(Ctx& c, bool isLong)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        Ex e;
        switch (c.weighted({isLong ? 0u : 60u, 8, 8, 8, 8, 8, isLong ? 160u : 0u})) {
            case 0:
                e = gen(c, g, static_cast<unsigned>(c.range(2, c.chance(20) ? 40 : 16)));
                break;
            case 1:
                e = genTrigProduct(c);
                break;
            case 2:
                e = genComposition(c);
                break;
            case 3:
                e = genPowerTower(c);
                break;
            case 4:
                e = genNumericPowerProduct(c);
                break;
            case 5:
                e = genSameBases(c);
                break;
            default:
                e = genLong(c, 8);
        }
        const Ex other = gen(c, g, static_cast<unsigned>(c.range(1, 4)));
        c.input(show(e) + " and " + show(other));
        if (estTerms(e) > 200 || !inNumericRange(e) || doubleRisk(e) > 9 || estTerms(other) > 100 || !inNumericRange(other) || doubleRisk(other) > 9)
            c.discard("out of range");
        c.label("profile:" + profile);
        const Var v = build(e), w = build(other);
        if (v.type() == Type::UNDEFINED || w.type() == Type::UNDEFINED)
            c.discard("undefined");
        c.label(std::string("type:") + typeName(v.type()));
        shape(c, v, v);

        /* has and collectSymbols against an own traversal. */
        std::vector<Var> all;
        subtrees(v, all);
        std::vector<Var> symbols;
        for (const auto& s : all)
            if (s.type() == Type::SYMBOL) {
                bool found = false;
                for (const auto& x : symbols)
                    found = found || dump(x) == dump(s);
                if (!found)
                    symbols.push_back(s);
            }
        const auto collected = tsym::collectSymbols(v);
        c.require(collected.size() == symbols.size(), "collect-count", [&] { return dump(v) + ": " + std::to_string(collected.size()); });
        for (const auto& s : symbols) {
            unsigned n = 0;
            for (const auto& x : collected)
                n += dump(x) == dump(s);
            c.require(n == 1, "collect", [&] { return dump(s) + " in " + dump(v) + " is reported " + std::to_string(n) + " times"; });
        }
        std::map<std::string, bool> recipe;
        symbolsOf(e, recipe);
        for (const auto& x : symbols)
            c.require(recipe.count(symbolKey(x)) == 1, "foreign-symbol", [&] { return show(e) + " gives " + dump(v); });
        bool hasDouble = false;
        for (const auto& s : all)
            hasDouble = hasDouble || s.type() == Type::DOUBLE;
        std::set<std::string> dumps;
        for (const auto& s : all)
            dumps.insert(dump(s));
        std::vector<Var> candidates{w};
        {
            std::vector<Var> t;
            subtrees(w, t);
            candidates.insert(candidates.end(), t.begin(), t.end());
        }
        for (int i = 0; i < 3; ++i)
            candidates.push_back(c.pick(all));
        const Var part = c.pick(all);
        candidates.insert(candidates.end(), {part + 1, part * 2, -part, pow(part, 2), log(part), part + w, Var(1), Var(2), Var(-1), Var(0), Var("a"), Var("a", Var::Sign::POSITIVE), tsym::pi()});
        unsigned yes = 0, no = 0;
        for (const auto& x : candidates) {
            if (x.type() == Type::UNDEFINED)
                continue;
            if (hasDouble && tsym::operands(x).empty())
                continue; /* The double 2.0 is equal to the integer 2. */
            const bool want = dumps.count(dump(x)) > 0;
            if (hasDouble && !want && x.type() != Type::SYMBOL)
                continue; /* So is 2.0*a to 2*a. */
            ++c.checks;
            ++(want ? yes : no);
            c.require(tsym::has(v, x) == want, "has", [&] { return "has(" + dump(v) + ", " + dump(x) + ") should be " + (want ? "true" : "false"); });
        }
        /* The number types. */
        for (const auto& s : all) {
            if (s.type() == Type::INT || s.type() == Type::FRACTION)
                c.require((denominator(exactOf(s)) == 1) == (s.type() == Type::INT), "number-type", [&] { return dump(s); });
        }
        /* Rebuilding. */
        for (const bool deep : {false, true}) {
            const Var r = rebuild(v, deep);
            ++c.checks;
            if (r == v)
                continue;
            if (hasDouble) {
                c.label("rebuild:double");
                continue;
            }
            if (hasUndeterminedRoot(v)) {
                c.label("rebuild:undetermined-root");
                continue;
            }
            if (hasConstantSumFactor(v)) {
                const Env env = randomEnv(c, recipe, false);
                const Val x = evalVar(v, env), y = evalVar(r, env);
                c.require(compare(x, y) != Cmp::DIFFERENT && x.st == y.st, "rebuild-value", [&] { return dump(v) + " is rebuilt as " + dump(r); });
                c.label("rebuild:constant-sum");
                continue;
            }
            if (hasAmbiguousNumericPowers(v)) {
                const Env env = randomEnv(c, recipe, false);
                const Val x = evalVar(v, env), y = evalVar(r, env);
                c.require(compare(x, y) != Cmp::DIFFERENT && x.st == y.st, "rebuild-value", [&] { return dump(v) + " is rebuilt as " + dump(r); });
                c.known("numeric-power-forms", dump(v) + " is rebuilt as " + dump(r));
                continue;
            }
            c.fail("rebuild", dump(v) + " is rebuilt as " + dump(r));
        }
        c.nontrivial(all.size() >= 4 && yes > 0 && no > 0);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C15";
    p.rule = "the expression has four or more nodes, and both present and absent parts were asked for";
    p.beforeCase = resetLibrary;
    p.findingProbes["numeric-power-forms"] = [] {
        const Var x = tsym::pow(Var(10), Var(4, 5)), y = tsym::pow(Var(2), Var(-1, 5));
        return x * y == y * x ? std::string() : "10^(4/5)*2^(-1/5) != 2^(-1/5)*10^(4/5)";
    };
    p.suites.push_back({"query", 300000, 3000000, [](Ctx& c) { query(c, false); }});
    p.suites.push_back({"long", 60000, 800000, [](Ctx& c) { query(c, true); }});
    return p;
}
