// C06: substitution replaces exactly the requested part.
#include "../polymodel.h"
#include <functional>

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    std::string keyOf(const SymInfo& s)
    {
        return s.positive ? s.name + "+" : s.name;
    }
    SymInfo infoOf(const std::pair<const std::string, bool>& x)
    {
        return {x.second ? x.first.substr(0, x.first.size() - 1) : x.first, x.second};
    }
    SymInfo pickSymbol(Ctx& c, const Ex& e)
    {
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        std::vector<SymInfo> s;
        for (const auto& x : syms)
            s.push_back(infoOf(x));
        return s.empty() ? SymInfo{"a", false} : c.pick(s);
    }
    Ex replaceSymbol(const Ex& e, const SymInfo& x, const Ex& by)
    {
        if (e->op == Op::Sym)
            return e->sym.name == x.name && e->sym.positive == x.positive ? by : e;
        if (e->args.empty())
            return e;
        std::vector<Ex> a;
        for (const auto& arg : e->args)
            a.push_back(replaceSymbol(arg, x, by));
        return mk(e->op, a);
    }
    Ex generate(Ctx& c, unsigned budget)
    {
        if (c.chance(70)) {
            std::string profile;
            const GenCfg g = anyCfg(c, &profile);
            c.label("profile:" + profile);
            return gen(c, g, static_cast<unsigned>(c.range(2, static_cast<int>(budget))));
        }
        switch (c.draw(6)) {
            case 0:
                return genTrigProduct(c);
            case 1:
                return genTrigSum(c);
            case 2:
                return genPowerTower(c);
            case 3:
                return genComposition(c);
            case 4:
                return genSameBases(c);
            default:
                return genLikeTerms(c);
        }
    }
    bool hasZeroBase(const Ex& e)
    {
        if (e->op == Op::Pow && build(e->args[0]) == 0)
            return true;
        for (const auto& x : e->args)
            if (hasZeroBase(x))
                return true;
        return false;
    }
    bool occurs(const Var& v, const Var& symbol)
    {
        const auto s = tsym::collectSymbols(v);
        return std::find(s.begin(), s.end(), symbol) != s.end();
    }
    /* Symbols of the result come from the arguments. */
    void checkSymbols(Ctx& c, const char* tag, const Var& result, const Var& v, const Var& x, const Var& t)
    {
        std::map<std::string, bool> allowed;
        for (const auto& s : tsym::collectSymbols(v))
            if (s != x)
                allowed[symbolKey(s)];
        for (const auto& s : tsym::collectSymbols(t))
            allowed[symbolKey(s)];
        for (const auto& s : tsym::collectSymbols(result))
            c.require(allowed.count(symbolKey(s)) > 0, tag, [&] { return dump(s) + " remains in " + dump(result) + " after the substitution of " + dump(x) + " by " + dump(t) + " in " + dump(v); });
        ++c.checks;
    }

    void replace(Ctx& c, const Ex& f)
    {
        const SymInfo x = pickSymbol(c, f);
        Ex t;
        switch (c.weighted({30, 30, 20, 20})) {
            case 0:
                t = generate(c, 5);
                break;
            case 1: {
                const GenCfg g = constCfg(c);
                t = gen(c, g, static_cast<unsigned>(c.range(1, 4)));
                break;
            }
            case 2:
                t = mkSym({c.pick(std::vector<std::string>{"a", "b", "k"}), c.chance(40)});
                break;
            default: {
                /* Contains the replaced symbol. */
                const Ex s = mkSym(x);
                const GenCfg g = anyCfg(c);
                t = mk(c.pick(std::vector<Op>{Op::Add, Op::Mul, Op::Sub, Op::Div}), {s, gen(c, g, 3)});
            }
        }
        c.input(show(f) + " with " + keyOf(x) + " = " + show(t));
        const Ex all = replaceSymbol(f, x, t);
        if (hasZeroBase(f))
            c.discard("power of zero"); /* 0^a is zero by convention, and 0^0 is one. */
        if (estTerms(f) > 300 || estTerms(all) > 300 || countNodes(all) > 2000)
            c.discard("too many terms");
        if (!inNumericRange(f) || !inNumericRange(t) || !inNumericRange(all) || doubleRisk(f) > 7 || doubleRisk(all) > 7)
            c.discard("constants out of range");
        const Var v = build(f), w = build(t);
        if (v.type() == Type::UNDEFINED || w.type() == Type::UNDEFINED)
            c.discard("undefined");
        (void)build(all); /* Discards what the construction discards. */
        const Var sx = symVar(x), r = tsym::subst(v, sx, w);
        /* A positive symbol can stand for positive values only. */
        const Ex recipe = x.positive ? mk(Op::Add, {all, mk(Op::Div, {mkInt(0), mk(Op::Sqrt, {t})})}) : all;
        ValueOpts o;
        o.points = 3;
        o.strictTypeUndefined = false; /* log(a^2) = 2*log(a) */
        const unsigned n = checkValue(c, "value", recipe, r, o);
        if (r.type() != Type::UNDEFINED)
            checkSymbols(c, "remains", r, v, sx, w);
        c.nontrivial(n > 0 && occurs(v, sx) && w != sx);
        c.label(occurs(v, sx) ? "occurs" : "absent");
    }

    void symbol(Ctx& c)
    {
        replace(c, generate(c, c.chance(20) ? 16 : 9));
    }
    void longLists(Ctx& c)
    {
        replace(c, genLong(c, 6));
    }

    /* Parts that don't occur, and parts replaced by themselves. */
    void unchanged(Ctx& c)
    {
        const Ex f = generate(c, c.chance(20) ? 16 : 9);
        c.input(show(f));
        if (estTerms(f) > 300 || !inNumericRange(f) || doubleRisk(f) > 7)
            c.discard("out of range");
        const Var v = build(f);
        if (v.type() == Type::UNDEFINED)
            c.discard("undefined");
        const SymInfo x = pickSymbol(c, f);
        const std::string text = dump(v);
        std::map<std::string, bool> syms;
        symbolsOf(f, syms);
        const auto check = [&](const char* tag, const Var& from, const Var& to) {
            const Var r = tsym::subst(v, from, to);
            ++c.checks;
            if (r != v && (hasUndeterminedRoot(v) || hasConstantSumFactor(v) || hasAmbiguousNumericPowers(v) || contains(f, Op::Dbl))) {
                /* Another form of the same, since the expression is assembled again. */
                const Env env = randomEnv(c, syms, false);
                const Val x1 = evalVar(v, env), y1 = evalVar(r, env);
                c.require(x1.st == y1.st && compare(x1, y1) != Cmp::DIFFERENT, "unchanged-value", [&] { return dump(v) + " becomes " + dump(r) + " by substitution of " + dump(from) + " by " + dump(to); });
                if (!hasUndeterminedRoot(v) && hasAmbiguousNumericPowers(v))
                    c.known("numeric-power-forms", dump(v) + " becomes " + dump(r) + " by substitution of " + dump(from));
                c.label("other-form");
                return;
            }
            c.require(r == v && dump(r) == text, tag, [&] { return dump(v) + " becomes " + dump(r) + " by substitution of " + dump(from) + " by " + dump(to); });
            c.require(dump(v) == text, "argument-changed", [&] { return text + " became " + dump(v); });
        };
        for (const SymInfo& other : {SymInfo{x.name, !x.positive}, SymInfo{"zz", false}, SymInfo{otherName(x.name, "1"), x.positive}, SymInfo{otherName(x.name, "_1"), x.positive}})
            if (syms.count(keyOf(other)) == 0)
                check("absent", symVar(other), c.chance(50) ? Var(3) : symVar(x));
        check("absent-composite", tsym::sin(Var("zz")), Var(2));
        check("absent-sum", Var("zz") + symVar(x), symVar(x));
        check("self-symbol", symVar(x), symVar(x));
        check("self", v, v);
        const Var z("zz");
        c.require(tsym::subst(v, v, z) == z, "whole", [&] { return dump(tsym::subst(v, v, z)); });
        c.nontrivial(!tsym::operands(v).empty());
    }

    void collectParts(const Var& v, std::vector<Var>& parts)
    {
        for (const auto& op : tsym::operands(v)) {
            parts.push_back(op);
            collectParts(op, parts);
        }
    }
    /* A part of the expression is replaced by a new symbol. */
    void part(Ctx& c)
    {
        const Ex f = generate(c, c.chance(20) ? 16 : 9);
        c.input(show(f));
        if (estTerms(f) > 300 || !inNumericRange(f) || doubleRisk(f) > 7)
            c.discard("out of range");
        const Var v = build(f);
        std::vector<Var> parts;
        collectParts(v, parts);
        if (parts.empty())
            c.discard("no parts");
        Var p = c.pick(parts);
        for (int i = 0; i < 3 && (p.type() == Type::SYMBOL || tsym::operands(p).empty()); ++i)
            p = c.pick(parts);
        const bool number = p.type() != Type::SYMBOL && tsym::operands(p).empty();
        const Var z("zz");
        const Var r = tsym::subst(v, p, z);
        c.input("replaced: " + str(p));
        std::map<std::string, bool> syms;
        symbolsOf(f, syms);
        const bool allowInt = !hasSymbolicExponent(f);
        unsigned n = 0;
        const Var back = tsym::subst(r, z, p);
        for (unsigned i = 0; i < 3; ++i) {
            Env env = randomEnv(c, syms, allowInt);
            const Val want = evalVar(v, env), at = evalVar(p, env);
            if (!want.ok() || !at.ok())
                continue;
            const Val again = evalVar(back, env);
            c.require(again.st != Val::St::UNDEF, "back-undefined", [&] { return dump(r) + " becomes " + dump(back) + " for zz = " + dump(p); });
            c.require(!again.ok() || compare(want, again) != Cmp::DIFFERENT, "back", [&] { return dump(r) + " becomes " + dump(back) + " for zz = " + dump(p); });
            env["zz"] = at;
            const Val got = evalVar(r, env);
            if (got.st == Val::St::UNDEF && number)
                continue; /* E.g. a negative base with an exponent that isn't recognised as an integer. */
            c.require(got.st != Val::St::UNDEF, "part-undefined", [&] { return dump(v) + " becomes " + dump(r) + ", undefined at " + show(env); });
            if (!got.ok())
                continue;
            c.require(compare(want, got) != Cmp::DIFFERENT, "part", [&] { return dump(v) + " becomes " + dump(r) + " with the value " + show(got) + " instead of " + show(want) + " at " + show(env); });
            ++c.checks;
            ++n;
        }
        c.require(n == 0 || tsym::has(r, z) || hasUndeterminedRoot(v), "not-replaced", [&] { return dump(p) + " in " + dump(v) + ": " + dump(r); });
        c.nontrivial(n > 0 && !tsym::operands(p).empty());
        c.label(number ? "number" : p.type() == Type::SYMBOL ? "symbol" : std::string("part:") + typeName(p.type()));
    }

    /* Rational functions, exactly. */
    void rational(Ctx& c)
    {
        const GenCfg g = rationalCfg(c);
        const Ex f = gen(c, g, static_cast<unsigned>(c.range(2, c.chance(20) ? 12 : 8)));
        const Ex t = gen(c, g, static_cast<unsigned>(c.range(1, 4)));
        const SymInfo x = pickSymbol(c, f);
        const Ex all = replaceSymbol(f, x, t);
        c.input(show(f) + " with " + keyOf(x) + " = " + show(t));
        if (estTerms(f) > 40 || estTerms(all) > 40 || contains(all, Op::Dbl))
            c.discard("too many terms");
        const Var v = build(f), w = build(t);
        if (v.type() == Type::UNDEFINED || w.type() == Type::UNDEFINED)
            c.discard("undefined");
        const auto want = ratFctOf(all);
        if (!want)
            c.discard("undefined by substitution");
        if (want->n.totalDegree() > 50 || want->d.totalDegree() > 50)
            c.discard("degree too high");
        const Var r = tsym::subst(v, symVar(x), w);
        const auto got = ratFctOfVar(r);
        c.require(bool(got), "rational", [&] { return dump(r); });
        ++c.checks;
        c.require(got->n * want->d == want->n * got->d, "rational-value", [&] { return dump(v) + " with " + keyOf(x) + " = " + dump(w) + " becomes " + dump(r); });
        c.nontrivial(occurs(v, symVar(x)) && !want->n.isConst());
    }

    /* Value of a rational function in a single symbol, nothing at poles. */
    std::optional<BigRat> exactValue(const Var& v, const Var& x, const BigRat& value)
    {
        const auto ops = tsym::operands(v);
        switch (v.type()) {
            case Type::INT:
            case Type::FRACTION:
                return exactOf(v);
            case Type::SYMBOL:
                return v == x ? std::optional<BigRat>(value) : std::nullopt;
            case Type::SUM:
            case Type::PRODUCT: {
                BigRat r = v.type() == Type::SUM ? 0 : 1;
                for (const auto& op : ops) {
                    const auto y = exactValue(op, x, value);
                    if (!y)
                        return std::nullopt;
                    if (v.type() == Type::SUM)
                        r += *y;
                    else
                        r *= *y;
                }
                return r;
            }
            case Type::POWER: {
                const auto b = exactValue(ops[0], x, value);
                const long n = exactOf(ops[1]).convert_to<long>();
                if (!b || (*b == 0 && n < 0))
                    return std::nullopt;
                BigRat r = 1;
                for (long i = 0; i < std::labs(n); ++i)
                    r *= *b;
                return n < 0 ? BigRat(1 / r) : r;
            }
            default:
                return std::nullopt;
        }
    }

    /* All symbols by numbers, in any order: the value itself. */
    void numbers(Ctx& c)
    {
        const bool rat = c.chance(60);
        const GenCfg g = rat ? rationalCfg(c) : anyCfg(c);
        const Ex f = gen(c, g, static_cast<unsigned>(c.range(2, c.chance(20) ? 16 : 9)));
        c.input(show(f));
        if (estTerms(f) > 300 || !inNumericRange(f) || doubleRisk(f) > 5)
            c.discard("out of range");
        std::map<std::string, bool> syms;
        symbolsOf(f, syms);
        const Var v = build(f);
        if (v.type() == Type::UNDEFINED)
            c.discard("undefined");
        Env env;
        std::vector<std::pair<Var, Var>> list;
        Ex all = f;
        for (const auto& s : syms) {
            BigInt n = genInt(c, 12), d = c.chance(40) ? BigInt(c.range(2, 9)) : BigInt(1);
            if (s.second && n < 0)
                n = -n;
            if (!s.second && c.chance(8))
                n = 0;
            env[s.first] = vRat(n, d);
            list.emplace_back(symVar(infoOf(s)), ratVar(n, d));
            all = replaceSymbol(all, infoOf(s), mkFrac(n, d));
        }
        c.input(show(env));
        if (!inNumericRange(all) || doubleRisk(all) > 7)
            c.discard("constants out of range");
        for (const auto& [from, to] : list)
            if (to == 0 && hasSymbolicExponent(f))
                c.discard("power of zero"); /* 0^a is zero and 0^0 is one, so that the order matters. */
        (void)build(all);
        for (size_t i = list.size(); i > 1; --i)
            std::swap(list[i - 1], list[c.draw(static_cast<uint32_t>(i))]);
        Var r = v, before = v;
        for (const auto& [from, to] : list) {
            before = r;
            r = tsym::subst(r, from, to);
        }
        ++c.checks;
        const Val want = eval(f, env), simplified = evalVar(v, env);
        if (rat && !contains(f, Op::Dbl)) {
            const auto exact = list.empty() ? exactValue(v, Var("zz"), 0) : exactValue(before, list.back().first, exactOf(list.back().second));
            if (exact)
                c.require((r.type() == Type::INT || r.type() == Type::FRACTION) && exactOf(r) == *exact, "number", [&] { return dump(before) + " becomes " + dump(r) + " instead of " + exact->str() + " at " + show(env); });
            else
                c.require(r.type() == Type::UNDEFINED, "pole", [&] { return dump(before) + " becomes " + dump(r) + " at " + show(env); });
            c.label(exact ? "exact" : "pole");
        }
        if (want.ok() && simplified.ok()) {
            c.require(r.type() != Type::UNDEFINED, "numbers-undefined", [&] { return dump(v) + " has the value " + show(want) + " at " + show(env) + ", but becomes Undefined"; });
            c.require(tsym::collectSymbols(r).empty(), "symbols-remain", [&] { return dump(r); });
            const Val got = evalVar(r, {});
            c.require(got.st != Val::St::UNDEF && (!got.ok() || compare(want, got) != Cmp::DIFFERENT), "numbers", [&] { return dump(v) + " becomes " + dump(r) + " at " + show(env); });
            c.nontrivial(!syms.empty());
        }
        c.label(want.ok() ? "value" : "no-value");
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C06";
    p.rule = "symbol: a value was compared and the symbol occurs; unchanged: composite expressions; part: a composite part and a value was compared; rational: the "
             "symbol occurs and the result isn't constant; numbers: a value was compared";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 10;
    p.findingProbes["numeric-power-forms"] = [] {
        const Var q = tsym::pow(tsym::pow(Var(3, 8), Var(-21, 8)), Var(-3, 5));
        const Var x = tsym::pow(q, Var(3)) * tsym::pow(q, Var(-4));
        const Var r = tsym::subst(x, Var("b"), Var(1));
        return x == r ? std::string() : dump(x) + " becomes " + dump(r) + " by substitution of b";
    };
    p.suites.push_back({"symbol", 60000, 1500000, symbol});
    p.suites.push_back({"long", 20000, 500000, longLists});
    p.suites.push_back({"unchanged", 30000, 600000, unchanged});
    p.suites.push_back({"part", 50000, 1000000, part});
    p.suites.push_back({"rational", 30000, 600000, rational});
    p.suites.push_back({"numbers", 50000, 1000000, numbers});
    return p;
}
