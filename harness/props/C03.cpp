// C03: expansion keeps the value, is idempotent, and complete for polynomials.
#include "../polymodel.h"

using namespace vf;
using tsym::Var;

namespace {
    /* Polynomial recipe as a product/power structure. */
    Ex genPolyRecipe(Ctx& c, const std::vector<SymInfo>& syms, unsigned budget)
    {
        if (budget <= 1 || c.chance(10)) {
            switch (c.weighted({6, 3, 1})) {
                case 0:
                    return mkSym(c.pick(syms));
                case 1:
                    return mkInt(genInt(c, 9));
                default:
                    return mkFrac(genInt(c, 9), c.range(1, 9));
            }
        }
        switch (c.weighted({6, 6, 3, 1, 2})) {
            case 0: {
                std::vector<Ex> a;
                const int n = c.range(2, 4);
                for (int i = 0; i < n; ++i)
                    a.push_back(genPolyRecipe(c, syms, (budget - 1) / static_cast<unsigned>(n)));
                return mk(Op::Add, a);
            }
            case 1: {
                std::vector<Ex> a;
                const int n = c.range(2, 3);
                for (int i = 0; i < n; ++i)
                    a.push_back(genPolyRecipe(c, syms, (budget - 1) / static_cast<unsigned>(n)));
                return mk(Op::Mul, a);
            }
            case 2:
                return mk(Op::Pow, {genPolyRecipe(c, syms, budget - 2), mkInt(c.range(2, c.chance(10) ? 8 : 4))});
            case 3:
                return mk(Op::Neg, {genPolyRecipe(c, syms, budget - 1)});
            default:
                return mk(Op::Sub, {genPolyRecipe(c, syms, (budget - 1) / 2), genPolyRecipe(c, syms, (budget - 1) / 2)});
        }
    }

    std::vector<SymInfo> polySyms(Ctx& c)
    {
        auto s = someSymbols(c, static_cast<unsigned>(c.range(1, 4)), c.chance(30) ? 50 : 0);
        if (c.chance(10))
            s.push_back({s[0].name, !s[0].positive});
        return s;
    }

    void checkPolynomial(Ctx& c, const Ex& e, int maxDegree)
    {
        const auto want = polyOf(e);
        if (!want)
            c.discard("not a polynomial");
        if (want->totalDegree() > maxDegree)
            c.discard("degree too high");
        const Var v = tsym::expand(build(e));
        ++c.checks;
        c.require(isExpandedPolynomial(v), "not-expanded", [&] { return "expand(" + show(e) + ") = " + dump(v); });
        const auto got = polyOfVar(v);
        c.require(got && *got == *want, "coefficients",
          [&] { return "expand(" + show(e) + ") = " + dump(v) + ", but the polynomial is " + want->show(); });
        const size_t ops = v.type() == Var::Type::SUM ? tsym::operands(v).size() : (v == 0 ? 0 : 1);
        c.require(ops == want->t.size(), "terms", [&] { return "number of terms of " + dump(v) + " vs. " + want->show(); });
        const Var direct = varOf(*want);
        c.require(direct == v, "equal", [&] { return dump(v) + " isn't equal to the directly assembled " + dump(direct); });
        const Var twice = tsym::expand(v);
        c.require(twice == v, "idempotent", [&] { return dump(v) + " expands again to " + dump(twice); });
        c.nontrivial(want->t.size() >= 2 && (contains(e, Op::Mul) || contains(e, Op::Pow)));
        c.label(want->zero() ? "zero" : want->t.size() > 8 ? "terms>8" : "terms<=8");
    }

    void polynomial(Ctx& c)
    {
        const auto syms = polySyms(c);
        const Ex e = genPolyRecipe(c, syms, static_cast<unsigned>(c.range(3, 24)));
        c.input(show(e));
        if (estTerms(e) > 400)
            c.discard("too many terms");
        checkPolynomial(c, e, 40);
    }

    /* High powers of short sums, with binomial and multinomial coefficients beyond the range of the primitive types. */
    void powers(Ctx& c)
    {
        const auto syms = polySyms(c);
        const int terms = c.weighted({0, 0, 8, 2});
        std::vector<Ex> a;
        for (int i = 0; i < terms; ++i) {
            Ex t = i == 1 && c.chance(20) ? mkInt(1) : mkSym(syms[static_cast<size_t>(i) % syms.size()]);
            if (c.chance(25))
                t = mk(Op::Pow, {t, mkInt(c.range(2, 4))});
            if (c.chance(20))
                t = mk(Op::Mul, {t, mkSym(c.pick(syms))});
            if (c.chance(50))
                t = mk(Op::Mul, {c.chance(70) ? mkInt(genInt(c, 9)) : mkFrac(genInt(c, 9), c.range(1, 9)), t});
            a.push_back(t);
        }
        Ex e = mk(Op::Pow, {mk(Op::Add, a), mkInt(c.range(5, terms == 2 ? (c.chance(10) ? 70 : 36) : 9))});
        if (c.chance(20))
            e = mk(Op::Mul, {e, mk(Op::Add, {mkSym(c.pick(syms)), mkInt(genInt(c, 9))})});
        c.input(show(e));
        maxModelExponent = 80;
        try {
            checkPolynomial(c, e, 500);
        } catch (...) {
            maxModelExponent = 12;
            throw;
        }
        maxModelExponent = 12;
    }

    /* The same polynomial in another shape, or one that differs in a single coefficient. */
    void pairs(Ctx& c)
    {
        const auto syms = polySyms(c);
        std::vector<std::string> names;
        for (const auto& s : syms)
            names.push_back(s.name + (s.positive ? "+" : ""));
        const Poly a = genPoly(c, names, 4, 3, 9, true), b = genPoly(c, names, 3, 2, 9, true), d = genPoly(c, names, 3, 2, 9, false);
        const Ex ea = exOf(a), eb = exOf(b), ed = exOf(d);
        Ex l, r;
        Poly pl, pr;
        switch (c.range(0, 5)) {
            case 0: /* (a+b)*d vs. a*d + b*d */
                l = mk(Op::Mul, {mk(Op::Add, {ea, eb}), ed});
                r = mk(Op::Add, {mk(Op::Mul, {ea, ed}), mk(Op::Mul, {ed, eb})});
                break;
            case 1: /* (a+b)^2 */
                l = mk(Op::Pow, {mk(Op::Add, {ea, eb}), mkInt(2)});
                r = mk(Op::Add, {mk(Op::Pow, {ea, mkInt(2)}), mk(Op::Mul, {mkInt(2), ea, eb}), mk(Op::Pow, {eb, mkInt(2)})});
                break;
            case 2: /* (a+b)(a-b) */
                l = mk(Op::Mul, {mk(Op::Add, {ea, eb}), mk(Op::Sub, {ea, eb})});
                r = mk(Op::Sub, {mk(Op::Pow, {ea, mkInt(2)}), mk(Op::Mul, {eb, eb})});
                break;
            case 3: /* a*(b*d) vs. direct */
                l = mk(Op::Mul, {ea, mk(Op::Mul, {eb, ed})});
                r = exOf(a * b * d);
                break;
            case 4: { /* (b+d)^n */
                const int n = c.range(2, 5);
                l = mk(Op::Pow, {mk(Op::Add, {eb, ed}), mkInt(n)});
                r = exOf(ppow(b + d, n));
                break;
            }
            default: { /* Horner vs. monomials */
                const Ex x = mkSym(c.pick(syms));
                Ex h = ea;
                std::vector<Ex> mono{ea};
                Ex lhs = ea;
                h = mk(Op::Add, {mk(Op::Mul, {mk(Op::Add, {mk(Op::Mul, {ea, x}), eb}), x}), ed});
                l = h;
                r = mk(Op::Add, {mk(Op::Mul, {ea, mk(Op::Pow, {x, mkInt(2)})}), mk(Op::Mul, {eb, x}), ed});
            }
        }
        const bool perturb = c.chance(40);
        if (perturb) {
            Poly delta;
            Mono m;
            if (c.chance(70))
                m[c.pick(names)] = c.range(1, 4);
            if (c.chance(30))
                m[c.pick(names)] = c.range(1, 3);
            delta.add(m, BigRat(c.range(1, 3)) / c.range(1, 7));
            r = mk(Op::Add, {r, exOf(delta)});
        }
        pl = *polyOf(l);
        pr = *polyOf(r);
        c.input(show(l) + " vs. " + show(r));
        const Var vl = tsym::expand(build(l)), vr = tsym::expand(build(r));
        ++c.checks;
        c.require((vl == vr) == (pl == pr), "pair",
          [&] { return "expand(" + show(l) + ") = " + dump(vl) + ", expand(" + show(r) + ") = " + dump(vr); });
        const Var diff = tsym::expand(build(l) - build(r));
        c.require((diff == 0) == (pl == pr), "difference", [&] { return "expand(l - r) = " + dump(diff); });
        c.nontrivial(pl.t.size() >= 2);
        c.label(perturb ? "different" : "same");
    }

    bool hasDenominatorPower(const Var& v)
    {
        const auto ops = tsym::operands(v);
        if (v.type() == Var::Type::POWER && ops.front().type() == Var::Type::SUM && ops.back().type() == Var::Type::INT && exactOf(ops.back()) < -1)
            return true;
        for (const auto& o : ops)
            if (hasDenominatorPower(o))
                return true;
        return false;
    }

    void general(Ctx& c, bool isLong)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        c.label("profile:" + profile);
        Ex e = isLong ? genLong(c, 8) : gen(c, g, static_cast<unsigned>(c.range(3, 20)));
        /* Make sure that there is something to expand. */
        switch (c.range(0, 3)) {
            case 0:
                break;
            case 1:
                e = mk(Op::Mul, {e, gen(c, g, static_cast<unsigned>(c.range(2, 10)))});
                break;
            case 2:
                e = mk(Op::Pow, {e, mkInt(c.range(2, 4))});
                break;
            default:
                e = mk(Op::Mul, {mk(Op::Add, {e, genLeaf(c, g)}), mk(Op::Sub, {gen(c, g, 5), genLeaf(c, g)})});
        }
        c.input(show(e));
        if (estTerms(e) > 150)
            c.discard("too many terms");
        if (!inNumericRange(e))
            c.discard("constants out of range");
        if (doubleRisk(e) > 9)
            c.discard("double coefficients out of range");
        const Var v = build(e);
        const Var x = tsym::expand(v);
        ValueOpts o;
        o.points = 3;
        const unsigned n = checkValue(c, "value", e, x, o);
        if (!contains(e, Op::Dbl) && x.type() != Var::Type::UNDEFINED && !hasUndeterminedRoot(x)) {
            c.label("idempotence-checked");
            const Var y = tsym::expand(x);
            if (!(y == x) && hasDenominatorPower(x))
                c.known("expand-denominators", dump(x) + " expands again to " + dump(y));
            else
                c.require(y == x, "idempotent", [&] { return dump(x) + " expands again to " + dump(y); });
        }
        c.nontrivial(n > 0 && str(x) != str(v));
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C03";
    p.rule = "polynomials: two or more terms and a product or power; general: expansion changed the text and values were compared";
    p.beforeCase = resetLibrary;
    p.findingProbes["expand-denominators"] = [] {
        const Var a("a");
        const Var x = tsym::expand(tsym::pow(tsym::pow(a * a * a + a * a / (a - a * a), 2), 4));
        return tsym::expand(x) == x ? std::string() : std::string("expand isn't idempotent for ((a^3 + a^2/(a - a^2))^2)^4");
    };
    p.suites.push_back({"polynomial", 60000, 2000000, polynomial});
    p.suites.push_back({"powers", 1600, 60000, powers});
    p.suites.push_back({"pairs", 40000, 1000000, pairs});
    p.suites.push_back({"general", 60000, 2000000, [](Ctx& c) { general(c, false); }});
    p.suites.push_back({"long", 20000, 500000, [](Ctx& c) { general(c, true); }});
    return p;
}
