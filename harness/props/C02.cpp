// C02: operations without a real result are Undefined, and Undefined propagates.
#include <functional>
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    bool isUndef(const Var& v)
    {
        return v.type() == Type::UNDEFINED;
    }
    bool hasUndefinedPart(const Var& v)
    {
        for (const auto& o : tsym::operands(v))
            if (isUndef(o) || hasUndefinedPart(o))
                return true;
        return false;
    }
    Var undefinedVar(Ctx& c, std::string& how)
    {
        static const Var a("a");
        static const Var p("p", Var::Sign::POSITIVE);
        switch (c.draw(10)) {
            case 0:
                how = "1/0";
                return Var(1) / Var(0);
            case 1:
                how = "log(-1)";
                return tsym::log(Var(-1));
            case 2:
                how = "sqrt(-2)";
                return tsym::sqrt(Var(-2));
            case 3:
                how = "asin(2)";
                return tsym::asin(Var(2));
            case 4:
                how = "tan(pi/2)";
                return tsym::tan(tsym::pi() / 2);
            case 5:
                how = "diff(a, a + 1)";
                return tsym::diff(a, a + 1);
            case 6:
                how = "symbol \"?\"";
                return Var("?");
            case 7:
                how = "log(-p)";
                return tsym::log(-p);
            case 8:
                how = "a/(a - a)";
                return a / (a - a);
            default:
                how = "atan2(0, 0)";
                return tsym::atan2(Var(0), Var(0));
        }
    }

    /* Undefined properties of a value. */
    void requireUndefined(Ctx& c, const char* tag, const Var& v, const std::string& what)
    {
        ++c.checks;
        c.require(isUndef(v), tag, [&] { return what + " becomes " + dump(v); });
    }
    void behaviour(Ctx& c, const Var& u, const std::string& what)
    {
        c.require(!(u == u), "equal-itself", [&] { return what; });
        c.require(u != u, "different-itself", [&] { return what; });
        const Var copy(u);
        c.require(!(u == copy) && u != copy && !(u == Var(0)) && u != Var(0) && !(Var(1) == u) && Var("a") != u, "equal", [&] { return what; });
        c.require(!tsym::isPositive(u) && !tsym::isNegative(u), "sign", [&] { return what; });
        c.require(!tsym::has(u, u) && !tsym::has(u, Var("a")) && !tsym::has(Var("a") + 1, u), "has", [&] { return what; });
        c.require(tsym::operands(u).empty() && tsym::collectSymbols(u).empty() && tsym::name(u).empty(), "parts", [&] { return what; });
        for (int i = 0; i < 2; ++i) {
            bool thrown = false;
            try {
                if (i == 0)
                    static_cast<void>(static_cast<double>(u));
                else
                    static_cast<void>(static_cast<int>(u));
            } catch (const std::domain_error&) {
                thrown = true;
            }
            c.require(thrown, "conversion", [&] { return what; });
        }
        c.checks += 6;
    }

    /* One operation with Undefined as one of the operands. */
    Var step(Ctx& c, const Var& u, const Var& other, std::string& text)
    {
        const auto n = [&](const std::string& s) { text = s; };
        switch (c.draw(28)) {
            case 0: n("u + x"); return u + other;
            case 1: n("x + u"); return other + u;
            case 2: n("u - x"); return u - other;
            case 3: n("x - u"); return other - u;
            case 4: n("u*x"); return u * other;
            case 5: n("x*u"); return other * u;
            case 6: n("u/x"); return u / other;
            case 7: n("x/u"); return other / u;
            case 8: n("u^x"); return tsym::pow(u, other);
            case 9: n("x^u"); return tsym::pow(other, u);
            case 10: n("-u"); return -u;
            case 11: n("+u"); return +u;
            case 12: n("sqrt(u)"); return tsym::sqrt(u);
            case 13: n("log(u)"); return tsym::log(u);
            case 14: n("sin(u)"); return tsym::sin(u);
            case 15: n("cos(u)"); return tsym::cos(u);
            case 16: n("tan(u)"); return tsym::tan(u);
            case 17: n("asin(u)"); return tsym::asin(u);
            case 18: n("acos(u)"); return tsym::acos(u);
            case 19: n("atan(u)"); return tsym::atan(u);
            case 20: n("atan2(u, x)"); return tsym::atan2(u, other);
            case 21: n("atan2(x, u)"); return tsym::atan2(other, u);
            case 22: n("expand(u)"); return tsym::expand(u);
            case 23: n("simplify(u)"); return tsym::simplify(u);
            case 24: n("normal(u)"); return tsym::normal(u);
            case 25: n("diff(u, a)"); return tsym::diff(u, Var("a"));
            case 26: n("subst(u, a, x)"); return tsym::subst(u, Var("a"), other);
            default: {
                n("compound assignment");
                Var v(other);
                switch (c.draw(4)) {
                    case 0: v += u; break;
                    case 1: v -= u; break;
                    case 2: v *= u; break;
                    default: v /= u;
                }
                return v;
            }
        }
    }
    void propagate(Ctx& c)
    {
        std::string how;
        Var u = undefinedVar(c, how);
        c.input(how);
        requireUndefined(c, "origin", u, how);
        behaviour(c, u, how);
        std::string profile;
        const int n = c.range(1, 4);
        for (int i = 0; i < n; ++i) {
            const GenCfg g = anyCfg(c, &profile);
            const Ex e = c.chance(25) ? mkInt(c.range(0, 2)) : gen(c, g, static_cast<unsigned>(c.range(1, 6)));
            if (estTerms(e) > 100 || !inNumericRange(e) || doubleRisk(e) > 9)
                c.discard("out of range");
            const Var x = build(e);
            std::string text;
            u = step(c, u, x, text);
            c.input(text + " with x = " + show(e));
            requireUndefined(c, "propagation", u, c.inputText);
        }
        behaviour(c, u, c.inputText);
        c.nontrivial(n > 1);
    }

    /* Replacing some leaf of an arbitrary recipe. */
    Var buildWithHole(const Ex& e, const Node* hole, const Var& u)
    {
        if (e.get() == hole)
            return u;
        std::vector<Var> a;
        for (const auto& x : e->args)
            a.push_back(buildWithHole(x, hole, u));
        switch (e->op) {
            case Op::Add:
            case Op::Mul: {
                Var r = a[0];
                for (size_t i = 1; i < a.size(); ++i)
                    e->op == Op::Add ? r += a[i] : r *= a[i];
                return r;
            }
            case Op::Sub:
                return a[0] - a[1];
            case Op::Neg:
                return -a[0];
            case Op::Div:
                return a[0] / a[1];
            case Op::Pow:
                return tsym::pow(a[0], a[1]);
            case Op::Sqrt:
                return tsym::sqrt(a[0]);
            case Op::Log:
                return tsym::log(a[0]);
            case Op::Sin:
                return tsym::sin(a[0]);
            case Op::Cos:
                return tsym::cos(a[0]);
            case Op::Tan:
                return tsym::tan(a[0]);
            case Op::Asin:
                return tsym::asin(a[0]);
            case Op::Acos:
                return tsym::acos(a[0]);
            case Op::Atan:
                return tsym::atan(a[0]);
            case Op::Atan2:
                return tsym::atan2(a[0], a[1]);
            default:
                return build(e);
        }
    }
    void nodes(const Ex& e, std::vector<Ex>& all)
    {
        all.push_back(e);
        for (const auto& a : e->args)
            nodes(a, all);
    }
    void hole(Ctx& c)
    {
        std::string profile, how;
        const GenCfg g = anyCfg(c, &profile);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(2, 14)));
        if (estTerms(e) > 150 || !inNumericRange(e) || doubleRisk(e) > 9)
            c.discard("out of range");
        std::vector<Ex> all;
        nodes(e, all);
        const Ex h = c.pick(all);
        const Var u = undefinedVar(c, how);
        c.input(show(e) + " with " + show(h) + " replaced by " + how);
        const Var v = buildWithHole(e, h.get(), u);
        requireUndefined(c, "hole", v, c.inputText);
        /* By substitution of a symbol that occurs. */
        const Var b = build(e);
        if (!isUndef(b)) {
            for (const auto& s : tsym::collectSymbols(b)) {
                const Var w = tsym::subst(b, s, u);
                requireUndefined(c, "subst", w, "subst(" + dump(b) + ", " + str(s) + ", Undefined)");
            }
            const Var same = tsym::subst(b, Var("zzUnused"), u);
            if (hasUndeterminedRoot(b) || hasConstantSumFactor(b) || hasAmbiguousNumericPowers(b) || contains(e, Op::Dbl))
                c.require(!isUndef(same), "subst-absent", [&] { return dump(b) + " becomes " + dump(same); });
            else
                c.require(same == b, "subst-absent", [&] { return dump(b) + " becomes " + dump(same); });
            requireUndefined(c, "diff", tsym::diff(b, u), "diff wrt. Undefined of " + dump(b));
        }
        c.nontrivial(h != e);
    }

    /* A number times a power of a number, -2*2^pi, the negative of which is 2^(1 + pi), see C07. */
    bool hasNumberTimesPower(const Var& v)
    {
        bool number = false, power = false;
        for (const auto& o : tsym::operands(v)) {
            if (hasNumberTimesPower(o))
                return true;
            number = number || tsym::operands(o).empty();
            power = power || (o.type() == Var::Type::POWER && tsym::operands(tsym::operands(o)[0]).empty());
        }
        return v.type() == Var::Type::PRODUCT && number && power;
    }
    /* Constants without a real value. */
    void constants(Ctx& c)
    {
        GenCfg g = constCfg(c);
        Ex e = gen(c, g, static_cast<unsigned>(c.range(1, 8)));
        /* Wrap into a function with a restricted domain. */
        switch (c.weighted({20, 20, 20, 10, 10, 20})) {
            case 0:
                e = mk(Op::Log, {e});
                break;
            case 1:
                e = mk(Op::Sqrt, {e});
                break;
            case 2:
                e = mk(Op::Pow, {e, mkFrac(2 * c.range(-4, 4) + 1, 2 * c.range(1, 4))});
                break;
            case 3:
                e = mk(Op::Asin, {e});
                break;
            case 4:
                e = mk(Op::Acos, {e});
                break;
            default:
                e = mk(Op::Div, {mkInt(1), mk(Op::Sub, {e, e})});
        }
        const Ex inner = e;
        for (int i = 0, n = c.range(0, 2); i < n; ++i) {
            const Ex x = gen(c, g, static_cast<unsigned>(c.range(1, 3)));
            switch (c.draw(5)) {
                case 0:
                    e = mk(Op::Add, {x, e});
                    break;
                case 1:
                    e = mk(Op::Mul, {e, x});
                    break;
                case 2:
                    e = mk(Op::Sin, {e});
                    break;
                case 3:
                    e = mk(Op::Pow, {e, mkInt(c.range(0, 3))});
                    break;
                default:
                    e = mk(Op::Div, {x, e});
            }
        }
        c.input(show(e));
        if (!inNumericRange(e) || magnitudeRisk(e) > 14)
            c.discard("out of range");
        const bool difference = inner->op == Op::Div && inner->args[1]->op == Op::Sub;
        if (difference ? !eval(inner->args[1]->args[0], {}).ok() : eval(inner, {}).st != Val::St::UNDEF)
            c.discard("has a value");
        if (difference) {
            const Var x = build(inner->args[1]->args[0]);
            if (hasAmbiguousNumericPowers(x) || hasUndeterminedRoot(x) || hasConstantSumFactor(x) || hasNumberTimesPower(x))
                c.discard("x - x needn't be zero");
        }
        const Var v = build(e);
        requireUndefined(c, "constant", v, c.inputText);
        c.label(std::string("root:") + std::to_string(static_cast<int>(inner->op)));
        c.nontrivial(countNodes(e) > 2);
    }

    /* Arguments with a known sign. */
    Ex positive(Ctx& c, unsigned depth)
    {
        switch (depth == 0 ? c.weighted({60, 40}) : c.weighted({15, 10, 25, 25, 15, 10})) {
            case 0:
                return mkSym({c.pick(std::vector<std::string>{"p", "q", "r"}), true});
            case 1:
                return mkFrac(c.range(1, 9), c.range(1, 5));
            case 2:
                return mk(Op::Add, {positive(c, depth - 1), positive(c, depth - 1)});
            case 3:
                return mk(Op::Mul, {positive(c, depth - 1), positive(c, depth - 1)});
            case 4:
                return mk(Op::Pow, {positive(c, depth - 1), c.chance(70) ? mkFrac(c.range(-3, 3), c.range(1, 4)) : mkSym({"a", false})});
            default:
                return mk(Op::Div, {positive(c, depth - 1), positive(c, depth - 1)});
        }
    }
    void signs(Ctx& c)
    {
        const Ex pos = positive(c, static_cast<unsigned>(c.range(0, 3)));
        const Ex neg = mk(Op::Neg, {pos});
        Ex e;
        const Ex rest = positive(c, 1);
        switch (c.draw(7)) {
            case 0:
                e = mk(Op::Log, {neg});
                break;
            case 1:
                e = mk(Op::Sqrt, {neg});
                break;
            case 2:
                e = mk(Op::Pow, {neg, mkFrac(c.range(-7, 7), c.range(2, 6))});
                break;
            case 3:
                e = mk(Op::Log, {mk(Op::Sub, {pos, pos})});
                break;
            case 4:
                e = mk(Op::Div, {rest, mk(Op::Sub, {pos, pos})});
                break;
            case 5:
                e = mk(Op::Pow, {mk(Op::Mul, {pos, mkInt(0)}), mkInt(-c.range(1, 4))});
                break;
            default:
                e = mk(Op::Tan, {mk(Op::Add, {mk(Op::Mul, {mkFrac(2 * c.range(-20, 20) + 1, 2), mk(Op::Pi)}), mk(Op::Sub, {pos, pos})})});
        }
        if (e->op == Op::Pow && e->args[1]->op == Op::Frac && BigRat(e->args[1]->num, e->args[1]->den) == BigRat(BigInt(e->args[1]->num / e->args[1]->den)))
            c.discard("integer exponent");
        c.input(show(e));
        const Var v = build(e);
        requireUndefined(c, "sign", v, c.inputText);
        c.nontrivial(countNodes(pos) > 1);
    }

    /* Undefined never becomes part of anything. */
    void parts(Ctx& c)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(2, 12)));
        c.input(show(e));
        if (estTerms(e) > 60 || !inNumericRange(e) || doubleRisk(e) > 9)
            c.discard("out of range");
        const Var v = build(e);
        const auto check = [&](const char* tag, const Var& x) {
            ++c.checks;
            c.require(!hasUndefinedPart(x), tag, [&] { return dump(x); });
        };
        check("part", v);
        check("part-expand", tsym::expand(v));
        const auto symbols = tsym::collectSymbols(v);
        for (const auto& s : symbols) {
            check("part-diff", tsym::diff(v, s));
            check("part-subst-zero", tsym::subst(v, s, Var(0)));
            check("part-subst-number", tsym::subst(v, s, Var(c.range(-3, 3), c.range(1, 2))));
        }
        /* Only symbols are valid for differentiation. */
        if (v.type() != Type::SYMBOL) {
            requireUndefined(c, "diff-non-symbol", tsym::diff(v, v), "diff(f, f) for f = " + dump(v));
            requireUndefined(c, "diff-number", tsym::diff(v, Var(c.range(-2, 2))), "diff(f, number)");
        }
        c.nontrivial(!isUndef(v) && !symbols.empty());
    }

    /* A symbol is replaced such that one operand has no value, while others become zero, one or something else. */
    void poles(Ctx& c)
    {
        const SymInfo x{c.pick(std::vector<std::string>{"a", "b", "x_1"}), false};
        const int at = c.chance(50) ? 0 : c.range(-3, 3);
        const Ex sx = mkSym(x);
        const Ex d = at == 0 ? sx : mk(Op::Sub, {sx, mkInt(at)}); /* Zero at the replaced value. */
        Ex bad;
        switch (c.draw(5)) {
            case 0:
                bad = mk(Op::Log, {d});
                break;
            case 1:
                bad = mk(Op::Asin, {mk(Op::Add, {d, mkInt(c.range(2, 4))})});
                break;
            case 2:
                bad = mk(Op::Log, {mk(Op::Sub, {d, mkInt(c.range(1, 4))})});
                break;
            case 3:
                bad = mk(Op::Sqrt, {mk(Op::Sub, {d, mkInt(c.range(1, 4))})});
                break;
            default:
                bad = mk(Op::Acos, {mk(Op::Sub, {d, mkFrac(c.range(5, 9), 3)})});
        }
        if (c.chance(25))
            bad = mk(Op::Atan, {bad});
        /* Other operands, with other symbols. */
        std::vector<Ex> others;
        const std::vector<std::string> names{"k", "l", "m"};
        for (int i = 0, n = c.range(1, 5); i < n; ++i) {
            const Ex s = mkSym({c.pick(names), c.chance(40)});
            switch (c.draw(7)) {
                case 0:
                    others.push_back(d);
                    break;
                case 1:
                    others.push_back(mk(Op::Pow, {d, mkInt(c.range(2, 3))}));
                    break;
                case 2:
                    others.push_back(mk(Op::Sin, {d}));
                    break;
                case 3:
                    others.push_back(s);
                    break;
                case 4:
                    others.push_back(mk(Op::Pow, {s, mkInt(c.range(2, 4))}));
                    break;
                case 5:
                    others.push_back(mk(Op::Add, {s, d}));
                    break;
                default:
                    others.push_back(mkInt(genInt(c, 9)));
            }
        }
        others.insert(others.begin() + c.draw(static_cast<uint32_t>(others.size() + 1)), bad);
        Ex e = mk(c.chance(70) ? Op::Mul : Op::Add, others);
        switch (c.draw(5)) {
            case 0:
                e = mk(Op::Add, {mkSym({"k", false}), e});
                break;
            case 1:
                e = mk(Op::Mul, {d, e});
                break;
            case 2:
                e = mk(Op::Atan, {e});
                break;
            default:
                break;
        }
        c.input(show(e) + " with " + x.name + " = " + std::to_string(at));
        const Var v = build(e);
        if (isUndef(v))
            c.discard("undefined before"); /* A factor could be constant. */
        requireUndefined(c, "pole", tsym::subst(v, symVar(x), Var(at)), dump(v) + " at " + std::to_string(at));
        c.nontrivial(true);
        c.label(v.type() == Type::PRODUCT ? "product" : v.type() == Type::SUM ? "sum" : "other");
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C02";
    p.rule = "propagate: two or more operations; hole: Undefined at an inner position; constants: more than two nodes; signs: composite argument; parts: defined, with symbols; poles: all that are defined before the substitution";
    p.beforeCase = resetLibrary;
    p.suites.push_back({"propagate", 60000, 1000000, propagate});
    p.suites.push_back({"hole", 60000, 1000000, hole});
    p.suites.push_back({"constants", 80000, 2000000, constants});
    p.suites.push_back({"signs", 40000, 800000, signs});
    p.suites.push_back({"parts", 40000, 1000000, parts});
    p.suites.push_back({"poles", 40000, 600000, poles});
    return p;
}
