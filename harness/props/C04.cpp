// C04: simplify, normal, numerator and denominator keep the value and cancel completely.
#include "../polymodel.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    bool hasTemporary(const Var& v, const std::map<std::string, bool>& syms)
    {
        for (const auto& s : tsym::collectSymbols(v))
            if (syms.count(symbolKey(s)) == 0)
                return true;
        return false;
    }

    void values(Ctx& c, const Ex& e)
    {
        c.input(show(e));
        if (estTerms(e) > 60)
            c.discard("too many terms");
        if (!inNumericRange(e) || doubleRisk(e) > 7)
            c.discard("constants out of range");
        const Var v = build(e);
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        ValueOpts o;
        o.allowUndefAtPoint = true;
        o.strictTypeUndefined = false;
        unsigned n = 0;
        const auto check = [&](const char* tag, const Var& r) {
            c.require(!hasTemporary(r, syms), "foreign-symbol", [&] { return std::string(tag) + ": " + dump(r); });
            n += checkValue(c, tag, e, r, o);
        };
        const Var s = tsym::simplify(v);
        check("simplify", s);
        const Var norm = tsym::normal(v);
        check("normal", norm);
        check("quotient", tsym::numerator(v) / tsym::denominator(v));
        ++c.checks;
        if (s.type() != Type::UNDEFINED) {
            const Var x = tsym::expand(v);
            c.require(tsym::complexity(s) <= tsym::complexity(x), "complexity",
              [&] { return dump(v) + " is simplified to " + dump(s) + ", but " + dump(x) + " is less complex"; });
        }
        c.nontrivial(n > 0 && (str(s) != str(v) || str(norm) != str(v)));
        c.label(str(s) != str(v) ? "simplified" : "unchanged");
    }
    void general(Ctx& c)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        c.label("profile:" + profile);
        values(c, gen(c, g, static_cast<unsigned>(c.range(2, c.chance(20) ? 18 : 10))));
    }
    void structured(Ctx& c)
    {
        Ex e;
        switch (c.draw(9)) {
            case 0:
                e = genTrigProduct(c);
                break;
            case 1:
                e = genTrigSum(c);
                break;
            case 2:
                e = genPowerTower(c);
                break;
            case 3:
                e = genLikeTerms(c);
                break;
            case 4:
                e = genSameBases(c);
                break;
            default: {
                /* Quotients of sums. */
                const GenCfg g = anyCfg(c);
                e = mk(Op::Div, {gen(c, g, 4), gen(c, g, 4)});
                e = mk(Op::Add, {e, mk(Op::Div, {gen(c, g, 3), gen(c, g, 3)})});
            }
        }
        values(c, e);
    }

    void longLists(Ctx& c)
    {
        values(c, genLong(c, 4, c.chance(70)));
    }

    /* Rational functions with known common factors. */
    void cancellation(Ctx& c)
    {
        std::vector<std::string> names{"a", "b", "c"};
        names.resize(static_cast<size_t>(c.range(1, 3)));
        if (c.chance(20))
            names.push_back("a+");
        std::map<std::string, bool> positive;
        const auto factor = [&](int degree) { return genPoly(c, names, static_cast<unsigned>(c.range(1, 3)), degree, 6, c.chance(20)); };
        Poly p = factor(3), q = factor(3), g = factor(2);
        if (c.chance(30))
            g = g * factor(1);
        if (p.zero() || q.zero() || g.zero())
            c.discard("zero polynomial");
        const Poly num = p * g, den = q * g;
        if (num.totalDegree() > 7 || den.totalDegree() > 7)
            c.discard("degree too high");
        c.input("(" + p.show() + ")*(" + g.show() + ")/(" + q.show() + ")/(" + g.show() + ")");
        /* Expanded or in factors. */
        const Var vg = varOf(g);
        Var f;
        switch (c.draw(4)) {
            case 0:
                f = varOf(num) / varOf(den);
                break;
            case 1:
                f = varOf(p) * vg / varOf(den);
                break;
            case 2:
                f = varOf(num) / varOf(q) / vg;
                break;
            default: {
                /* Sum of two fractions. */
                const Poly h = factor(2);
                f = varOf(num - h) / varOf(den) + varOf(h) / varOf(den);
            }
        }
        const Var n = tsym::numerator(f), d = tsym::denominator(f);
        const auto pn = polyOfVar(n), pd = polyOfVar(d);
        c.require(pn && pd && !pd->zero(), "polynomials", [&] { return dump(n) + " over " + dump(d); });
        ++c.checks;
        c.require(*pn * den == *pd * num, "value", [&] { return dump(n) + " over " + dump(d) + " isn't " + dump(f); });
        const Poly common = pgcd(*pn, *pd);
        c.require(common.isConst(), "common-factor", [&] { return dump(n) + " and " + dump(d) + " have the common factor " + common.show(); });
        const Var norm = tsym::normal(f);
        const auto rf = ratFctOfVar(norm);
        c.require(rf && rf->n * den == rf->d * num, "normal", [&] { return dump(f) + " becomes " + dump(norm); });
        const Poly reduced = pgcd(rf->n, rf->d);
        c.require(reduced.isConst(), "normal-common-factor", [&] { return dump(f) + " becomes " + dump(norm); });
        const Var s = tsym::simplify(f);
        const auto rs = ratFctOfVar(s);
        c.require(rs && rs->n * den == rs->d * num, "simplify", [&] { return dump(f) + " becomes " + dump(s); });
        /* Polynomial or constant after all? */
        if (pd->isConst() || pgcd(num, den).totalDegree() == den.totalDegree())
            c.require(polyOfVar(s).has_value(), "polynomial", [&] { return dump(f) + " becomes " + dump(s); });
        const Poly ref = pgcd(num, den);
        c.nontrivial(!ref.isConst() && names.size() > 0);
        c.label(ref.isConst() ? "no-common-factor" : "common-factor");
    }

    /* The same rational function, rewritten. */
    Ex rewrite(Ctx& c, const Ex& e)
    {
        std::vector<Ex> a;
        for (const auto& x : e->args)
            a.push_back(rewrite(c, x));
        const auto one = [] { return mkInt(1); };
        switch (e->op) {
            case Op::Add:
                if (c.chance(50))
                    std::reverse(a.begin(), a.end());
                if (a.size() == 2 && a[0]->op == Op::Div && c.chance(60)) {
                    /* n/d + x = (n + x*d)/d. */
                    const Ex n = a[0]->args[0], d = a[0]->args[1];
                    return mk(Op::Div, {mk(Op::Add, {n, mk(Op::Mul, {a[1], d})}), d});
                }
                return mk(Op::Add, a);
            case Op::Sub:
                if (c.chance(50))
                    return mk(Op::Neg, {mk(Op::Sub, {a[1], a[0]})});
                return mk(Op::Add, {a[0], mk(Op::Neg, {a[1]})});
            case Op::Mul:
                if (c.chance(50))
                    std::reverse(a.begin(), a.end());
                if (a.size() == 2 && (a[0]->op == Op::Add || a[0]->op == Op::Sub) && c.chance(60)) {
                    /* Distribute. */
                    std::vector<Ex> s;
                    for (const auto& x : a[0]->args)
                        s.push_back(mk(Op::Mul, {x, a[1]}));
                    return mk(a[0]->op, s);
                }
                return mk(Op::Mul, a);
            case Op::Div:
                switch (c.draw(3)) {
                    case 0:
                        return mk(Op::Mul, {a[0], mk(Op::Pow, {a[1], mkInt(-1)})});
                    case 1:
                        if (a[0]->op == Op::Add) {
                            std::vector<Ex> s;
                            for (const auto& x : a[0]->args)
                                s.push_back(mk(Op::Div, {x, a[1]}));
                            return mk(Op::Add, s);
                        }
                        return mk(Op::Div, {a[0], a[1]});
                    default:
                        return mk(Op::Div, {one(), mk(Op::Div, {a[1], a[0]})});
                }
            case Op::Pow:
                if (a[1]->op == Op::Int && a[1]->num == 2 && c.chance(50))
                    return mk(Op::Mul, {a[0], a[0]});
                if (a[1]->op == Op::Int && a[1]->num < 0)
                    return mk(Op::Div, {one(), mk(Op::Pow, {a[0], mkInt(-a[1]->num)})});
                return mk(Op::Pow, a);
            case Op::Neg:
                return mk(Op::Neg, a);
            default:
                return e;
        }
    }
    Ex replaceSymbol(const Ex& e, const std::string& name, const Ex& by)
    {
        if (e->op == Op::Sym)
            return e->sym.name == name ? by : e;
        if (e->args.empty())
            return e;
        std::vector<Ex> a;
        for (const auto& x : e->args)
            a.push_back(replaceSymbol(x, name, by));
        return mk(e->op, a);
    }
    void identities(Ctx& c)
    {
        const GenCfg g = rationalCfg(c);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(3, c.chance(20) ? 14 : 9)));
        if (estTerms(e) > 25 || contains(e, Op::Dbl))
            c.discard("too many terms");
        const auto ref = ratFctOf(e);
        if (!ref || ref->n.zero() || ref->n.totalDegree() > 8 || ref->d.totalDegree() > 8)
            c.discard("zero, undefined or of high degree");
        const Ex f = rewrite(c, e);
        if (estTerms(f) > 60)
            c.discard("too many terms");
        c.input(show(e) + " and " + show(f));
        const auto check = ratFctOf(f);
        if (!check || !(check->n * ref->d == ref->n * check->d))
            c.discard("division by zero in the rewritten form");
        /* The same with functions or constants instead of symbols. */
        Ex e1 = e, f1 = f;
        if (c.chance(40)) {
            const Ex arg = mkSym({"d", c.chance(50)});
            const std::vector<Ex> atoms{mk(Op::Log, {arg}), mk(Op::Sin, {arg}), mk(Op::Atan, {arg}), mk(Op::Pi),
              mk(Op::Asin, {arg}), mk(Op::Log, {mk(Op::Add, {arg, mkInt(1)})}), mk(Op::Cos, {mk(Op::Mul, {arg, mkInt(2)})})};
            const Ex& atom = c.pick(atoms);
            e1 = replaceSymbol(e, "a", atom);
            f1 = replaceSymbol(f, "a", atom);
            c.input(show(atom) + " for a");
            c.label("with-function");
        }
        const Var v = build(e1), w = build(f1);
        if (v.type() == Type::UNDEFINED || w.type() == Type::UNDEFINED)
            c.fail("undefined", dump(v) + ", " + dump(w));
        const auto zero = [&](const char* tag, const Var& x) {
            ++c.checks;
            const Var s = tsym::simplify(x);
            c.require(s == 0, tag, [&] { return dump(x) + " should be zero, but becomes " + dump(s); });
        };
        zero("difference", v - w);
        zero("difference-normal", v - tsym::normal(v));
        zero("difference-expand", v - tsym::expand(w));
        zero("difference-simplify", tsym::simplify(v) - w);
        const Var ratio = tsym::simplify(v / w);
        c.require(ratio == 1, "ratio", [&] { return dump(v) + " over " + dump(w) + " becomes " + dump(ratio); });
        c.nontrivial(show(e) != show(f) && v != w);
        c.label(v == w ? "equal" : "different-forms");
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C04";
    p.rule = "general, structured: a value was compared and simplification or normalisation changed the expression; cancellation: non-trivial common factor; "
             "identities: two different forms of a function";
    p.caseCpuSeconds = 10;
    p.beforeCase = resetLibrary;
    p.suites.push_back({"general", 20000, 1000000, general});
    p.suites.push_back({"structured", 20000, 500000, structured});
    p.suites.push_back({"long", 6000, 300000, longLists});
    p.suites.push_back({"cancellation", 40000, 800000, cancellation});
    p.suites.push_back({"identities", 40000, 800000, identities});
    return p;
}
