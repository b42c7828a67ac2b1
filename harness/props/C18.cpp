// C18: trigonometric functions have exact values and principal branches.
#include <cmath>
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    struct Fct {
        const char* name;
        Op op;
        Var (*f)(const Var&);
    };
    const std::vector<Fct> direct{{"sin", Op::Sin, tsym::sin}, {"cos", Op::Cos, tsym::cos}, {"tan", Op::Tan, tsym::tan}};
    const std::vector<Fct> inverse{{"asin", Op::Asin, tsym::asin}, {"acos", Op::Acos, tsym::acos}, {"atan", Op::Atan, tsym::atan}};

    Val vPiTimes(const BigRat& r)
    {
        return vMul(vRat(numerator(r), denominator(r)), vPi());
    }
    Var piTimes(const BigRat& r)
    {
        return ratVar(numerator(r), denominator(r)) * tsym::pi();
    }
    bool hasFunction(const Var& v)
    {
        if (v.type() == Type::FUNCTION || v.type() == Type::DOUBLE)
            return true;
        for (const auto& o : tsym::operands(v))
            if (hasFunction(o))
                return true;
        return false;
    }
    void requireEqual(Ctx& c, const char* tag, const Var& v, const Val& want, const std::string& what)
    {
        ++c.checks;
        if (!want.ok())
            c.discard("no reference value");
        const Val got = evalVar(v, {});
        c.require(got.st != Val::St::UNDEF && (!got.ok() || compare(got, want) != Cmp::DIFFERENT), tag,
          [&] { return what + " becomes " + dump(v) + " = " + show(got) + " instead of " + show(want); });
        c.label(got.ok() ? "value:compared" : "value:skipped");
    }
    bool tabulated(const BigRat& r)
    {
        const BigInt d = denominator(r);
        return 24 % d == 0 && d != 24;
    }
    BigRat multiple(Ctx& c)
    {
        static const std::vector<int> dens{1, 2, 3, 4, 6, 8, 12, 5, 7, 9, 10, 11, 24, 13, 16, 25, 97, 360};
        const int d = c.chance(70) ? c.pick(std::vector<int>(dens.begin(), dens.begin() + 7)) : c.pick(dens);
        const int max = c.weighted({60, 30, 10}) == 0 ? 3 : c.chance(50) ? 20 : 90;
        int n = c.range(0, max * d);
        return BigRat(c.chance(50) ? -n : n, d);
    }
    /* The same multiple, assembled in some way. */
    Var assembled(Ctx& c, const BigRat& r)
    {
        switch (c.weighted({60, 10, 10, 10, 10})) {
            case 0:
                return piTimes(r);
            case 1: {
                const BigRat s(c.range(-50, 50), c.range(1, 12));
                return piTimes(s) + piTimes(r - s);
            }
            case 2:
                return tsym::pi() / ratVar(denominator(r), 1) * ratVar(numerator(r), 1);
            case 3: {
                /* An angle with a symbol that cancels out. */
                const Var a("a");
                return (a + 1) * piTimes(r) - a * piTimes(r);
            }
            default:
                return -piTimes(-r);
        }
    }

    /* Rational multiples of pi. */
    void multiples(Ctx& c)
    {
        const BigRat r = multiple(c);
        Var arg = assembled(c, r);
        if (!tsym::collectSymbols(arg).empty())
            arg = tsym::expand(arg);
        const Fct& f = c.pick(direct);
        const std::string what = std::string(f.name) + "(" + r.str() + "*pi)";
        c.input(what);
        const Var v = f.f(arg);
        if (f.op == Op::Tan && denominator(r) == 2) {
            ++c.checks;
            c.require(v.type() == Type::UNDEFINED, "pole", [&] { return what + " becomes " + dump(v); });
            return;
        }
        c.require(v.type() != Type::UNDEFINED, "undefined", [&] { return what; });
        requireEqual(c, "value", v, vFct(f.op, vPiTimes(r)), what);
        if (tabulated(r)) {
            c.require(!hasFunction(v), "table", [&] { return what + " becomes " + dump(v); });
            /* One form for all periods and assemblies. */
            const Var base = f.f(piTimes(r));
            c.require(v == base, "assembly", [&] { return what + " becomes " + dump(v) + " and " + dump(base); });
            const BigRat k(2 * c.range(-10, 10));
            const Var shifted = f.f(piTimes(r + k));
            /* The tangent of multiples of pi/8 and pi/12 is tabulated in the first quadrant only, otherwise it is the quotient of sine and cosine. */
            const bool quotient = f.op == Op::Tan && denominator(r) >= 8;
            c.require(!hasFunction(shifted), "period-table", [&] { return what + " shifted by " + k.str() + "*pi: " + dump(shifted); });
            requireEqual(c, "period-value", shifted, vFct(f.op, vPiTimes(r)), what + " shifted by " + k.str() + "*pi");
            c.require(quotient || v == shifted, "period", [&] { return what + " becomes " + dump(v) + ", shifted by " + k.str() + "*pi: " + dump(shifted); });
            if (f.op == Op::Tan && !quotient) {
                const Var half = f.f(piTimes(r + 1));
                c.require(v == half, "period-pi", [&] { return what + " becomes " + dump(v) + ", shifted by pi: " + dump(half); });
            }
        }
        const Var mirrored = f.f(-arg);
        if (f.op == Op::Cos)
            c.require(mirrored == v, "even", [&] { return what + " becomes " + dump(v) + ", mirrored " + dump(mirrored); });
        else
            c.require(mirrored == -v || mirrored + v == 0 || tsym::simplify(mirrored + v) == 0, "odd", [&] { return what + " becomes " + dump(v) + ", mirrored " + dump(mirrored); });
        /* sin^2 + cos^2, tan = sin/cos. */
        const Var s = tsym::sin(arg), co = tsym::cos(arg);
        const Var one = tsym::expand(s * s + co * co);
        if (tabulated(r))
            c.require(one == 1, "pythagoras", [&] { return r.str() + "*pi: " + dump(one); });
        requireEqual(c, "pythagoras-value", one, vRat(1, 1), "sin^2 + cos^2 for " + r.str() + "*pi");
        c.nontrivial(r != 0 && (r > 1 || r < 0 || !tabulated(r)));
    }

    /* Inverse functions of the tabulated values. */
    void inverseTable(Ctx& c)
    {
        const size_t i = c.draw(3);
        static const std::vector<int> dens{1, 2, 3, 4, 6, 8, 12};
        const int d = c.pick(dens);
        /* In the principal branch. */
        BigRat r;
        if (i == 1)
            r = BigRat(c.range(0, d), d);
        else {
            const int n = c.range(0, d / 2);
            r = BigRat(c.chance(50) ? -n : n, d);
        }
        if (i == 2 && abs(r) == BigRat(1, 2))
            c.discard("pole");
        const BigRat period(i == 2 ? c.range(-20, 20) : 2 * c.range(-10, 10));
        BigRat shifted = r + period;
        if (i == 0 && c.chance(30))
            shifted = 1 - shifted;
        if (i == 1 && c.chance(30))
            shifted = -shifted;
        const std::string what = std::string(inverse[i].name) + "(" + direct[i].name + "(" + shifted.str() + "*pi))";
        c.input(what);
        Var value = direct[i].f(piTimes(shifted));
        switch (c.weighted({60, 20, 20})) {
            case 0:
                break;
            case 1: {
                const Var s = tsym::sqrt(Var(c.range(2, 5)));
                value = tsym::expand(value * s / s);
                break;
            }
            default:
                value = tsym::expand((value + 1) - 1);
        }
        const Var v = inverse[i].f(value);
        ++c.checks;
        c.require(v == piTimes(r), "principal", [&] { return what + " becomes " + dump(v) + " instead of " + r.str() + "*pi"; });
        c.nontrivial(r != 0);
    }

    /* Arbitrary constants. */
    Ex constant(Ctx& c)
    {
        switch (c.weighted({30, 20, 20, 15, 15})) {
            case 0:
                return mkFrac(genInt(c, 30), c.range(1, 30));
            case 1:
                return mk(Op::Mul, {mkFrac(genInt(c, 9), c.range(1, 9)), mk(Op::Sqrt, {mkInt(c.range(2, 11))})});
            case 2:
                return mk(Op::Add, {mkFrac(genInt(c, 9), c.range(1, 9)), mk(Op::Mul, {mkFrac(genInt(c, 9), c.range(1, 9)), mk(Op::Pi)})});
            case 3:
                return mk(Op::Mul, {mkFrac(genInt(c, 40), c.range(1, 13)), mk(Op::Pi)});
            default: {
                const Ex e = gen(c, constCfg(c), static_cast<unsigned>(c.range(2, 6)));
                if (magnitudeRisk(e) > 12)
                    c.discard("large or tiny powers");
                return e;
            }
        }
    }
    void constants(Ctx& c)
    {
        const Ex e = constant(c);
        const bool inv = c.chance(50);
        const Fct& f = c.pick(inv ? inverse : direct);
        const Ex full = mk(f.op, {e});
        const std::string what = show(full);
        c.input(what);
        if (!inNumericRange(full) || contains(e, Op::Dbl))
            c.discard("out of range");
        const Val x = eval(e, {});
        if (!x.ok() || boost::multiprecision::abs(x.v) > 300)
            c.discard("no value");
        const Var arg = build(e);
        const Var v = f.f(arg);
        const Val want = vFct(f.op, x);
        if (want.st == Val::St::UNDEF) {
            ++c.checks;
            c.require(v.type() == Type::UNDEFINED, "not-undefined", [&] { return what + " becomes " + dump(v); });
            c.label("undefined");
            return;
        }
        requireEqual(c, "value", v, want, what);
        /* Ranges follow from the value. Symmetry: */
        const Var m = f.f(-arg);
        Val mirrored = want;
        if (f.op == Op::Acos)
            mirrored = vAdd(vPi(), vNeg(want));
        else if (f.op != Op::Cos)
            mirrored = vNeg(want);
        requireEqual(c, "mirrored", m, mirrored, what + " of the negative argument");
        if (!inv && c.chance(40)) {
            const int k = c.range(-20, 20);
            const Val shifted = vFct(f.op, vAdd(x, vPiTimes(BigRat(2 * k))));
            if (shifted.ok())
                requireEqual(c, "shifted", f.f(arg + 2 * k * tsym::pi()), shifted, what + " shifted by " + std::to_string(2 * k) + "*pi");
        }
        c.nontrivial(!isExactExpr(e) || e->den != 1);
    }

    /* Compositions of two functions with a constant argument. */
    void compositions(Ctx& c)
    {
        const Ex e = constant(c);
        const Fct& inner = c.pick(c.chance(50) ? inverse : direct);
        const Fct& outer = c.pick(c.chance(50) ? inverse : direct);
        const Ex full = mk(outer.op, {mk(inner.op, {e})});
        const std::string what = show(full);
        c.input(what);
        if (!inNumericRange(full) || contains(e, Op::Dbl))
            c.discard("out of range");
        const Val x = eval(e, {});
        if (!x.ok())
            c.discard("no value");
        const Val y = vFct(inner.op, x);
        if (!y.ok())
            c.discard("inner function without a value");
        const Val want = vFct(outer.op, y);
        const Var v = outer.f(inner.f(build(e)));
        if (want.st == Val::St::UNDEF) {
            ++c.checks;
            c.require(v.type() == Type::UNDEFINED, "not-undefined", [&] { return what + " becomes " + dump(v); });
            return;
        }
        requireEqual(c, "value", v, want, what);
        c.nontrivial(v.type() != Type::FUNCTION);
        c.label(v.type() == Type::FUNCTION ? "unresolved" : "resolved");
    }

    /* The same with symbols. */
    void symbolic(Ctx& c)
    {
        GenCfg g = rationalCfg(c);
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(1, 6)));
        Ex full = e;
        for (int i = 0, n = c.range(1, 3); i < n; ++i)
            full = mk(c.pick(c.chance(50) ? inverse : direct).op, {c.chance(25) ? mk(Op::Neg, {full}) : full});
        c.input(show(full));
        if (!inNumericRange(full) || estTerms(full) > 100)
            c.discard("out of range");
        const Var v = build(full);
        if (v.type() == Type::UNDEFINED)
            c.label("undefined");
        ValueOpts o;
        o.points = 4;
        o.allowUndefAtPoint = true; /* tan(asin(a)) = a/sqrt(1 - a^2) etc. with nested radicals. */
        c.nontrivial(checkValue(c, "value", full, v, o) > 0);
    }

    /* Functions of atan2 with at least one symbolic argument. */
    void atan2Symbolic(Ctx& c)
    {
        GenCfg g = rationalCfg(c);
        const auto argument = [&]() -> Ex {
            Ex e;
            switch (c.weighted({30, 30, 25, 15})) {
                case 0:
                    e = g.syms.empty() ? mkInt(2) : mkSym(c.pick(g.syms));
                    break;
                case 1:
                    e = mk(Op::Mul, {mkFrac(c.range(1, 9), c.range(1, 4)), g.syms.empty() ? mkInt(2) : mkSym(c.pick(g.syms))});
                    break;
                case 2:
                    e = gen(c, g, static_cast<unsigned>(c.range(1, 5)));
                    break;
                default:
                    e = c.chance(50) ? mkFrac(c.range(1, 9), c.range(1, 4)) : mk(Op::Sqrt, {mkInt(c.range(2, 6))});
            }
            return c.chance(35) ? mk(Op::Neg, {e}) : e;
        };
        const Ex y = argument(), x = argument();
        Ex full = mk(c.pick(direct).op, {mk(Op::Atan2, {y, x})});
        if (c.chance(20))
            full = mk(c.pick(inverse).op, {full});
        c.input(show(full));
        std::map<std::string, bool> syms;
        symbolsOf(full, syms);
        if (syms.empty() || !inNumericRange(full) || estTerms(full) > 100)
            c.discard("out of range");
        const Var vy = build(y), vx = build(x);
        if (tsym::collectSymbols(vy).empty() && tsym::collectSymbols(vx).empty())
            c.discard("constant arguments"); /* Finding atan2-quadrant. */
        const Var v = build(full);
        ValueOpts o;
        o.points = 4;
        o.allowUndefAtPoint = true;
        c.nontrivial(checkValue(c, "value", full, v, o) > 0);
        c.label(v.type() == Type::FUNCTION ? "unresolved" : "resolved");
    }

    /* atan2 with constant arguments. */
    void atan2Constants(Ctx& c)
    {
        Ex y, x;
        bool resolvable = false;
        if (c.chance(50)) {
            /* r*(sin, cos) of a tabulated angle. */
            static const std::vector<int> dens{1, 2, 3, 4, 6, 8, 12};
            const int d = c.pick(dens);
            const Ex angle = mk(Op::Mul, {mkFrac(c.range(0, 2 * d - 1), d), mk(Op::Pi)});
            const Ex r = c.chance(60) ? mkFrac(c.range(1, 9), c.range(1, 5)) : mk(Op::Sqrt, {mkInt(c.range(2, 6))});
            y = mk(Op::Mul, {r, mk(Op::Sin, {angle})});
            x = mk(Op::Mul, {r, mk(Op::Cos, {angle})});
            resolvable = true;
        } else {
            y = constant(c);
            x = constant(c);
        }
        const std::string what = "atan2(" + show(y) + ", " + show(x) + ")";
        c.input(what);
        if (!inNumericRange(mk(Op::Atan2, {y, x})) || contains(y, Op::Dbl) || contains(x, Op::Dbl))
            c.discard("out of range");
        const Val vy = eval(y, {}), vx = eval(x, {});
        if (!vy.ok() || !vx.ok())
            c.discard("no value");
        const Var by = build(y), bx = build(x);
        const Var v = tsym::atan2(by, bx);
        const bool zx = bx == 0, zy = by == 0;
        if (zx && zy) {
            ++c.checks;
            c.require(v.type() == Type::UNDEFINED, "origin", [&] { return what + " becomes " + dump(v); });
            return;
        }
        /* Signs are decided by the values, exact zeros by the objects. */
        if ((!zx && boost::multiprecision::abs(vx.v) <= vx.e) || (!zy && boost::multiprecision::abs(vy.v) <= vy.e))
            c.discard("undecided sign");
        const Val got = evalVar(v, {});
        c.require(got.st != Val::St::UNDEF, "undefined", [&] { return what + " becomes " + dump(v); });
        if (!got.ok())
            c.discard("no verdict");
        ++c.checks;
        const Val wantedSin = zy ? vRat(0, 1) : vDiv(vy, vPow(vAdd(vMul(vy, vy), vMul(vx, vx)), vRat(1, 2)));
        const Val wantedCos = zx ? vRat(0, 1) : vDiv(vx, vPow(vAdd(vMul(vy, vy), vMul(vx, vx)), vRat(1, 2)));
        const bool sinOk = compare(vFct(Op::Sin, got), wantedSin) != Cmp::DIFFERENT, cosOk = compare(vFct(Op::Cos, got), wantedCos) != Cmp::DIFFERENT;
        const std::string msg = what + " becomes " + dump(v) + " = " + show(got);
        if (resolvable) {
            c.require(sinOk && cosOk, "angle", [&] { return msg; });
            c.require(got.v > -Mp("1e-30") && got.v < Mp("6.283185307179586476"), "range", [&] { return msg; });
            c.require(!hasFunction(v), "resolved", [&] { return msg; });
        } else if (!(sinOk && cosOk) && vx.v < 0) {
            /* Finding: the quadrant is lost, but the tangent must be right. */
            c.require(compare(vFct(Op::Tan, got), vDiv(vy, vx)) != Cmp::DIFFERENT, "tangent", [&] { return msg; });
            c.known("atan2-quadrant", msg);
        } else
            c.require(sinOk && cosOk, "angle", [&] { return msg; });
        c.nontrivial(!zx && !zy);
    }

    /* Floating point arguments. */
    void doubles(Ctx& c)
    {
        const double x = (c.chance(50) ? -1 : 1) * (c.range(0, 999999) / 1e6 + (c.chance(50) ? c.range(0, 100) : 0));
        const bool inv = c.chance(50);
        const size_t i = c.draw(3);
        const Fct& f = (inv ? inverse : direct)[i];
        std::ostringstream s;
        s.precision(17);
        s << f.name << "(" << x << ")";
        c.input(s.str());
        const Var v = f.f(Var(x));
        if (inv && i < 2 && std::abs(x) > 1) {
            ++c.checks;
            c.require(v.type() == Type::UNDEFINED, "not-undefined", [&] { return s.str() + " becomes " + dump(v); });
            return;
        }
        const Val want = vFct(f.op, vDouble(x));
        if (!want.ok())
            c.discard("no reference value");
        const double got = static_cast<double>(v), ref = want.v.convert_to<double>();
        ++c.checks;
        const double tol = 1e-9 * (1 + ref * ref) * (1 + std::abs(x));
        c.require(std::abs(got - ref) < tol, "value", [&] { return s.str() + " becomes " + dump(v) + " instead of " + std::to_string(ref); });
        const double y = (c.chance(50) ? -1 : 1) * (c.range(1, 999999) / 1e6);
        const Var w = tsym::atan2(Var(y), Var(x));
        if (x != 0) {
            const double a = static_cast<double>(w), want2 = std::atan2(y, x);
            const double diff = std::remainder(a - want2, 2 * M_PI);
            if (x < 0 && w.type() != Type::DOUBLE && std::abs(std::remainder(diff, M_PI)) < 1e-9 && std::abs(diff) > 1)
                c.known("atan2-quadrant", "atan2(" + std::to_string(y) + ", " + std::to_string(x) + ") becomes " + dump(w));
            else
                c.require(std::abs(diff) < 1e-9, "atan2", [&] { return "atan2(" + std::to_string(y) + ", " + std::to_string(x) + ") becomes " + dump(w); });
        }
        c.nontrivial(std::abs(x) > 1e-3);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C18";
    p.rule = "multiples: outside of [0, pi] or not tabulated; inverse: non-zero angle; constants: not an integer; compositions: resolved to something else than a function; "
             "symbolic: compared at a point; atan2: off the axes";
    p.beforeCase = resetLibrary;
    p.findingProbes["atan2-quadrant"] = [] {
        const Var v = tsym::atan2(Var(1), Var(-2));
        return static_cast<double>(v) < 0 ? std::string("atan2(1, -2) = -atan(1/2)") : std::string();
    };
    p.suites.push_back({"multiples", 60000, 1500000, multiples});
    p.suites.push_back({"inverse-table", 40000, 600000, inverseTable});
    p.suites.push_back({"constants", 50000, 1500000, constants});
    p.suites.push_back({"compositions", 50000, 1500000, compositions});
    p.suites.push_back({"symbolic", 30000, 1000000, symbolic});
    p.suites.push_back({"atan2", 40000, 800000, atan2Constants});
    p.suites.push_back({"atan2-symbolic", 30000, 600000, atan2Symbolic});
    p.suites.push_back({"doubles", 30000, 500000, doubles});
    return p;
}
