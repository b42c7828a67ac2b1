// C05: derivatives are the derivatives of the represented function.
#include "../polymodel.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    bool isNumber(const Ex& e, int n)
    {
        return e->op == Op::Int && e->num == n;
    }
    Ex add(const Ex& a, const Ex& b)
    {
        return isNumber(a, 0) ? b : isNumber(b, 0) ? a : mk(Op::Add, {a, b});
    }
    Ex mul(const Ex& a, const Ex& b)
    {
        if (isNumber(a, 0) || isNumber(b, 0))
            return mkInt(0);
        return isNumber(a, 1) ? b : isNumber(b, 1) ? a : mk(Op::Mul, {a, b});
    }
    Ex quot(const Ex& a, const Ex& b)
    {
        return isNumber(a, 0) ? a : isNumber(b, 1) ? a : mk(Op::Div, {a, b});
    }
    Ex neg(const Ex& a)
    {
        return isNumber(a, 0) ? a : mk(Op::Neg, {a});
    }
    Ex sq(const Ex& a)
    {
        return mk(Op::Pow, {a, mkInt(2)});
    }

    /* Textbook differentiation of the recipe. */
    Ex derive(const Ex& e, const SymInfo& x)
    {
        const auto d = [&](unsigned i) { return derive(e->args[i], x); };
        const auto arg = [&](unsigned i) { return e->args[i]; };
        switch (e->op) {
            case Op::Int:
            case Op::Frac:
            case Op::Dbl:
            case Op::Pi:
            case Op::E:
                return mkInt(0);
            case Op::Sym:
                return mkInt(e->sym.name == x.name && e->sym.positive == x.positive ? 1 : 0);
            case Op::Add: {
                Ex r = mkInt(0);
                for (const auto& a : e->args)
                    r = add(r, derive(a, x));
                return r;
            }
            case Op::Sub:
                return add(d(0), neg(d(1)));
            case Op::Neg:
                return neg(d(0));
            case Op::Mul: {
                Ex r = mkInt(0);
                for (size_t i = 0; i < e->args.size(); ++i) {
                    Ex f = derive(e->args[i], x);
                    for (size_t j = 0; j < e->args.size(); ++j)
                        if (i != j)
                            f = mul(f, e->args[j]);
                    r = add(r, f);
                }
                return r;
            }
            case Op::Div: {
                const Ex du = d(0), dv = d(1);
                return add(quot(du, arg(1)), neg(quot(mul(arg(0), dv), sq(arg(1)))));
            }
            case Op::Pow: {
                const Ex db = d(0), dx = d(1);
                const Ex reduced = arg(1)->op == Op::Int ? mkInt(arg(1)->num - 1) : mk(Op::Sub, {arg(1), mkInt(1)});
                const Ex outer = isNumber(db, 0) ? db : mul(arg(1), mk(Op::Pow, {arg(0), reduced}));
                const Ex inner = isNumber(dx, 0) ? dx : mul(e, mk(Op::Log, {arg(0)}));
                return add(mul(outer, db), mul(inner, dx));
            }
            case Op::Sqrt:
                return quot(d(0), mul(mkInt(2), e));
            case Op::Log:
                return quot(d(0), arg(0));
            case Op::Sin:
                return mul(mk(Op::Cos, {arg(0)}), d(0));
            case Op::Cos:
                return neg(mul(mk(Op::Sin, {arg(0)}), d(0)));
            case Op::Tan:
                return quot(d(0), sq(mk(Op::Cos, {arg(0)})));
            case Op::Asin:
                return quot(d(0), mk(Op::Sqrt, {mk(Op::Sub, {mkInt(1), sq(arg(0))})}));
            case Op::Acos:
                return neg(quot(d(0), mk(Op::Sqrt, {mk(Op::Sub, {mkInt(1), sq(arg(0))})})));
            case Op::Atan:
                return quot(d(0), mk(Op::Add, {mkInt(1), sq(arg(0))}));
            case Op::Atan2: {
                const Ex num = add(mul(arg(1), d(0)), neg(mul(arg(0), d(1))));
                return quot(num, mk(Op::Add, {sq(arg(0)), sq(arg(1))}));
            }
        }
        return mkInt(0);
    }
    /* Defined only where the function is defined. */
    Ex where(const Ex& derivative, const Ex& function)
    {
        return mk(Op::Add, {derivative, mk(Op::Mul, {mkInt(0), function})});
    }
    SymInfo pickSymbol(Ctx& c, const Ex& e)
    {
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        std::vector<SymInfo> s;
        for (const auto& x : syms)
            s.push_back({x.second ? x.first.substr(0, x.first.size() - 1) : x.first, x.second});
        return s.empty() ? SymInfo{"a", false} : c.pick(s);
    }

    void values(Ctx& c, const Ex& e, bool second)
    {
        c.input(show(e));
        if (estTerms(e) > 200)
            c.discard("too many terms");
        if (!inNumericRange(e) || doubleRisk(e) > 7)
            c.discard("constants out of range");
        const SymInfo x = pickSymbol(c, e);
        const Var v = build(e);
        if (v.type() == Type::UNDEFINED)
            c.discard("undefined");
        const Var dv = tsym::diff(v, symVar(x));
        Ex de = derive(e, x);
        if (countNodes(de) > 3000)
            c.discard("derivative too large");
        if (!inNumericRange(de))
            c.discard("constants of the derivative out of range");
        ValueOpts o;
        o.points = 3;
        unsigned n = checkValue(c, "derivative", where(de, e), dv, o);
        if (second) {
            const SymInfo y = pickSymbol(c, e);
            const Ex dde = derive(de, y);
            if (countNodes(dde) > 6000 || !inNumericRange(dde))
                c.discard("second derivative out of range");
            const Ex ref = where(dde, e);
            n += checkValue(c, "second", ref, tsym::diff(dv, symVar(y)), o);
            if (x.name != y.name || x.positive != y.positive)
                n += checkValue(c, "mixed", ref, tsym::diff(tsym::diff(v, symVar(y)), symVar(x)), o);
        }
        c.nontrivial(n > 0 && de->op != Op::Int);
        c.label(de->op == Op::Int ? "constant-derivative" : "derivative");
        /* Other symbols, in particular with the same name. */
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        for (const SymInfo& other : {SymInfo{x.name, !x.positive}, SymInfo{"zz", false}, SymInfo{otherName(x.name, "1"), x.positive}}) {
            if (syms.count(other.positive ? other.name + "+" : other.name))
                continue;
            ++c.checks;
            const Var zero = tsym::diff(v, symVar(other));
            c.require(zero == 0, "independent", [&] { return dump(v) + " derived for " + dump(symVar(other)) + " is " + dump(zero); });
        }
    }
    Ex generate(Ctx& c, bool small)
    {
        if (c.chance(60)) {
            std::string profile;
            const GenCfg g = anyCfg(c, &profile);
            c.label("profile:" + profile);
            return gen(c, g, static_cast<unsigned>(c.range(2, small ? 7 : c.chance(20) ? 18 : 10)));
        }
        switch (c.draw(6)) {
            case 0:
                return genTrigProduct(c);
            case 1:
                return genTrigSum(c);
            case 2:
                return genPowerTower(c);
            case 3:
                return genComposition(c);
            case 4:
                return genSameBases(c);
            default: {
                /* A function of something. */
                const GenCfg g = anyCfg(c);
                const Ex arg = gen(c, g, 4);
                const Op op = c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan, Op::Log, Op::Sqrt, Op::Pow, Op::Atan2});
                return op == Op::Pow || op == Op::Atan2 ? mk(op, {arg, gen(c, g, 4)}) : mk(op, {arg});
            }
        }
    }
    void general(Ctx& c)
    {
        values(c, generate(c, false), false);
    }
    void longLists(Ctx& c)
    {
        const Ex e = genLong(c, 6);
        if (e->args.size() == 1 && countNodes(e) > 30)
            c.discard("function of a long argument"); /* Its derivative is normalised, which takes long. */
        values(c, e, false);
    }
    void second(Ctx& c)
    {
        values(c, generate(c, true), true);
    }

    /* Rational functions, exactly. */
    void rational(Ctx& c)
    {
        const GenCfg g = rationalCfg(c);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(2, c.chance(20) ? 14 : 9)));
        c.input(show(e));
        if (estTerms(e) > 40 || contains(e, Op::Dbl))
            c.discard("too many terms");
        const SymInfo x = pickSymbol(c, e);
        const auto f = ratFctOf(e);
        if (!f)
            c.discard("undefined");
        const Ex de = derive(e, x);
        const auto want = ratFctOf(de);
        const Var v = build(e);
        const Var dv = tsym::diff(v, symVar(x));
        const auto got = ratFctOfVar(dv);
        if (want && (want->n.totalDegree() > 60 || want->d.totalDegree() > 60))
            c.discard("degree too high");
        c.require(bool(want), "reference", [&] { return show(de); });
        c.require(bool(got), "rational", [&] { return dump(dv); });
        ++c.checks;
        c.require(got->n * want->d == want->n * got->d, "value", [&] { return "derivative of " + dump(v) + " is " + dump(dv) + " instead of " + show(de); });
        c.nontrivial(!want->n.zero());
        c.label(want->n.zero() ? "zero" : want->n.isConst() ? "constant" : "non-constant");
    }

    /* Linearity, product and chain rule for derivatives as a whole. */
    void rules(Ctx& c)
    {
        const GenCfg g = anyCfg(c);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(2, 6))), f = gen(c, g, static_cast<unsigned>(c.range(2, 6)));
        c.input(show(e) + " and " + show(f));
        if (estTerms(e) * estTerms(f) > 200 || !inNumericRange(e) || !inNumericRange(f) || doubleRisk(e) > 3 || doubleRisk(f) > 3)
            c.discard("out of range");
        const SymInfo x = pickSymbol(c, e);
        const Var s = symVar(x), v = build(e), w = build(f);
        if (v.type() == Type::UNDEFINED || w.type() == Type::UNDEFINED)
            c.discard("undefined");
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        symbolsOf(f, syms);
        const bool allowInt = !hasSymbolicExponent(e) && !hasSymbolicExponent(f);
        const Var dv = tsym::diff(v, s), dw = tsym::diff(w, s);
        const std::vector<std::pair<const char*, std::pair<Var, Var>>> pairs{{"sum", {tsym::diff(v + w, s), dv + dw}},
          {"product", {tsym::diff(v * w, s), dv * w + v * dw}}, {"expanded", {tsym::diff(tsym::expand(v), s), dv}},
          {"normalised", {tsym::diff(tsym::normal(v), s), dv}}};
        for (unsigned i = 0; i < 2; ++i) {
            const Env env = randomEnv(c, syms, allowInt);
            if (!eval(e, env).ok() || !eval(f, env).ok())
                continue;
            for (const auto& p : pairs) {
                if (p.second.first.type() == Type::UNDEFINED || p.second.second.type() == Type::UNDEFINED)
                    continue;
                const Val a = evalVar(p.second.first, env), b = evalVar(p.second.second, env);
                if (!a.ok() || !b.ok())
                    continue;
                ++c.checks;
                c.require(compare(a, b) != Cmp::DIFFERENT, p.first, [&] { return dump(p.second.first) + " and " + dump(p.second.second) + " differ at " + show(env); });
                c.nontrivial(dv != 0);
            }
        }
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C05";
    p.rule = "a value was compared and the derivative isn't a constant (rational: isn't zero)";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 10;
    p.suites.push_back({"general", 60000, 1500000, general});
    p.suites.push_back({"second", 25000, 600000, second});
    p.suites.push_back({"long", 5000, 400000, longLists});
    p.suites.push_back({"rational", 40000, 800000, rational});
    p.suites.push_back({"rules", 25000, 600000, rules});
    return p;
}
