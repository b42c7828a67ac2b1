// C17: numerical evaluation agrees with the exact value.
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    const Mp eps("1e-15"), absolute("3e-16");

    /* A value and a bound for the error of its evaluation in double precision. */
    struct Dv {
        bool ok = false;
        Mp v{0}, err{0};
    };
    Dv dv(const Val& x, const Mp& err)
    {
        if (!x.ok() || abs(x.v) > Mp("1e150") || x.e > abs(x.v) * Mp("1e-25") + Mp("1e-30"))
            return {};
        /* Results are rounded once more to a fraction, if that is within an absolute tolerance. */
        return {true, x.v, err + abs(x.v) * eps + absolute};
    }
    Val val(const Dv& x)
    {
        return Val::make(x.v, abs(x.v) * Mp("1e-50"));
    }
    Dv leaf(const Val& x)
    {
        return {x.ok(), x.v, abs(x.v) * eps};
    }
    Dv sum(const std::vector<Dv>& a)
    {
        Mp v(0), mag(0), err(0);
        for (const auto& x : a) {
            if (!x.ok)
                return {};
            v += x.v;
            mag += abs(x.v);
            err += x.err;
        }
        const Mp n(static_cast<double>(a.size()));
        return {true, v, err + n * (mag * eps + absolute)};
    }
    Dv product(const std::vector<Dv>& a)
    {
        Mp v(1), bound(1), upper(1);
        for (const auto& x : a) {
            if (!x.ok)
                return {};
            v *= x.v;
            bound *= abs(x.v) + x.err + absolute;
            upper *= std::max(Mp(1), Mp(abs(x.v)));
        }
        if (abs(v) > Mp("1e150"))
            return {};
        const Mp n(static_cast<double>(a.size()));
        return {true, v, (bound - abs(v)) + n * (abs(v) * eps + upper * absolute)};
    }
    Dv power(const Dv& b, const Dv& e)
    {
        if (!b.ok || !e.ok)
            return {};
        const Val r = vPow(val(b), val(e));
        if (!r.ok())
            return {};
        const Mp ab = abs(b.v);
        if (ab == 0 || b.err > ab / 1000)
            return {};
        const Mp rel = abs(e.v) * b.err / ab * 2 + abs(log(ab)) * e.err * 2 + eps * (2 + abs(e.v * log(ab)) + abs(e.v));
        if (rel > Mp("0.001"))
            return {};
        return dv(r, abs(r.v) * rel);
    }
    Dv function(Op op, const Dv& x)
    {
        if (!x.ok)
            return {};
        const Val r = vFct(op, val(x));
        if (!r.ok())
            return {};
        Mp slope(1);
        switch (op) {
            case Op::Tan:
                slope = 1 + r.v * r.v;
                break;
            case Op::Log:
                if (x.v <= 0 || x.err > x.v / 1000)
                    return {};
                slope = 1 / x.v;
                break;
            case Op::Asin:
            case Op::Acos: {
                const Mp d = 1 - x.v * x.v;
                if (d < 1000 * x.err + Mp("1e-10"))
                    return {};
                slope = 1 / sqrt(d);
                break;
            }
            default:
                break;
        }
        const Mp err = slope * (x.err + abs(x.v) * eps) * 2;
        if (op == Op::Tan && abs(r.v) * (x.err + abs(x.v) * eps) > Mp("0.001"))
            return {};
        return dv(r, err);
    }
    Dv arctangent2(const Dv& y, const Dv& x)
    {
        if (!y.ok || !x.ok)
            return {};
        const Val r = vAtan2(val(y), val(x));
        const Mp d = x.v * x.v + y.v * y.v;
        if (!r.ok() || d < Mp("1e-6") || (x.v > 0 && abs(y.v) < Mp("1e-6")))
            return {};
        return dv(r, (y.err * abs(x.v) + x.err * abs(y.v)) / d * 4);
    }

    Dv walk(const Var& v)
    {
        const auto ops = tsym::operands(v);
        std::vector<Dv> a;
        for (const auto& o : ops)
            a.push_back(walk(o));
        switch (v.type()) {
            case Type::SUM:
                return sum(a);
            case Type::PRODUCT:
                return product(a);
            case Type::POWER:
                return power(a[0], a[1]);
            case Type::FUNCTION: {
                static const std::map<std::string, Op> fct{{"sin", Op::Sin}, {"cos", Op::Cos}, {"tan", Op::Tan}, {"asin", Op::Asin}, {"acos", Op::Acos},
                  {"atan", Op::Atan}, {"log", Op::Log}};
                const auto it = fct.find(tsym::name(v));
                return it != fct.end() ? function(it->second, a[0]) : arctangent2(a[0], a[1]);
            }
            case Type::SYMBOL:
            case Type::UNDEFINED:
                return {};
            default:
                return leaf(evalVar(v, {}));
        }
    }
    Dv walk(const Ex& e)
    {
        std::vector<Dv> a;
        for (const auto& x : e->args)
            a.push_back(walk(x));
        const Dv mOne{true, Mp(-1), Mp(0)}, half{true, Mp(1) / 2, Mp(0)};
        switch (e->op) {
            case Op::Add:
                return sum(a);
            case Op::Mul:
                return product(a);
            case Op::Neg:
                a[0].v = -a[0].v;
                return a[0];
            case Op::Sub:
                for (size_t i = 1; i < a.size(); ++i)
                    a[i].v = -a[i].v;
                return sum(a);
            case Op::Div:
                for (size_t i = 1; i < a.size(); ++i)
                    a[i] = power(a[i], mOne);
                return product(a);
            case Op::Pow:
                return power(a[0], a[1]);
            case Op::Sqrt:
                return power(a[0], half);
            case Op::Atan2:
                return arctangent2(a[0], a[1]);
            case Op::Log:
            case Op::Sin:
            case Op::Cos:
            case Op::Tan:
            case Op::Asin:
            case Op::Acos:
            case Op::Atan:
                return function(e->op, a[0]);
            default:
                return leaf(eval(e, {}));
        }
    }

    std::string text(double d)
    {
        char buf[40];
        std::snprintf(buf, sizeof buf, "%.17g", d);
        return buf;
    }
    bool hasSymbol(const Var& v)
    {
        if (v.type() == Type::SYMBOL)
            return true;
        for (const auto& o : tsym::operands(v))
            if (hasSymbol(o))
                return true;
        return false;
    }

    void compareWith(Ctx& c, const char* tag, const Dv& want, double got, const std::function<std::string()>& what)
    {
        if (!want.ok) {
            c.label("ill-conditioned");
            return;
        }
        const Mp tol = 8 * want.err + abs(want.v) * eps + absolute;
        if (tol > Mp("1e-6") * (1 + abs(want.v))) {
            c.label("ill-conditioned");
            return;
        }
        ++c.checks;
        c.label("compared");
        c.require(std::isfinite(got) && abs(Mp(got) - want.v) <= tol, tag,
          [&] { return what() + " is evaluated to " + text(got) + ", but has the value " + want.v.str(20) + " (tolerance " + tol.str(3) + ")"; });
    }

    /* Exact constants. */
    void checkExact(Ctx& c, const Ex& e)
    {
        c.input(show(e));
        if (estTerms(e) > 100 || !inNumericRange(e))
            c.discard("out of range");
        const Var v = build(e);
        if (v.type() == Type::UNDEFINED || hasSymbol(v)) {
            bool thrown = false;
            try {
                (void)static_cast<double>(v);
            } catch (const std::domain_error&) {
                thrown = true;
            }
            ++c.checks;
            c.require(thrown, "no-exception", [&] { return dump(v) + " is converted to double"; });
            c.label(v.type() == Type::UNDEFINED ? "undefined" : "symbolic");
            c.nontrivial(v.type() != Type::UNDEFINED && sizeOf(v) >= 4);
            return;
        }
        double d = 0;
        try {
            d = static_cast<double>(v);
        } catch (const std::domain_error& x) {
            if (!walk(v).ok)
                c.discard("no value");
            c.fail("exception", dump(v) + " isn't converted: " + x.what());
        }
        compareWith(c, "value", walk(v), d, [&] { return show(e) + " = " + dump(v); });
        /* And the recipe itself. */
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        Dv r = syms.empty() ? walk(e) : Dv{};
        const Val precise = syms.empty() ? eval(e, {}) : Val::ambig();
        if (r.ok && precise.ok()) {
            r.v = precise.v;
            const Dv w = walk(v);
            if (w.ok) {
                r.err += w.err;
                compareWith(c, "recipe", r, d, [&] { return show(e) + " = " + dump(v); });
            }
        }
        c.nontrivial(sizeOf(v) >= 4 && walk(v).ok);
    }
    void constants(Ctx& c)
    {
        checkExact(c, gen(c, constCfg(c), static_cast<unsigned>(c.range(2, 14))));
    }
    void radicals(Ctx& c)
    {
        if (c.chance(50)) {
            checkExact(c, genNumericPowerProduct(c));
            return;
        }
        GenCfg g = radicalCfg(c);
        g.syms.clear();
        checkExact(c, gen(c, g, static_cast<unsigned>(c.range(2, 12))));
    }
    void symbolic(Ctx& c)
    {
        GenCfg g = anyCfg(c);
        g.wDbl = 0;
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(1, 12)));
        if (contains(e, Op::Dbl))
            c.discard("double");
        checkExact(c, e);
    }

    /* Numbers from doubles. */
    double someDouble(Ctx& c)
    {
        double d = 0;
        switch (c.weighted({25, 25, 20, 15, 15})) {
            case 0:
                d = c.range(1, 99999) / 10000.;
                break;
            case 1:
                d = c.range(1, 1000000) / 777.;
                break;
            case 2:
                d = std::ldexp(static_cast<double>(c.bits64() >> 11), c.range(-70, 10));
                break;
            case 3:
                d = std::ldexp(1. + static_cast<double>(c.bits64() >> 12) * std::ldexp(1., -52), c.range(-40, 60));
                break;
            default:
                d = c.range(1, 1000) + (c.chance(50) ? 1e-9 : 1e-5) * c.range(-9, 9);
        }
        return c.chance(40) ? -d : d;
    }
    void creation(Ctx& c)
    {
        const double d = someDouble(c);
        c.input(text(d));
        const Var v(d);
        ++c.checks;
        const double back = static_cast<double>(v);
        c.require(std::abs(back - d) <= 2.3e-16 + 4e-16 * std::abs(d), "creation", [&] { return text(d) + " becomes " + text(back); });
        c.require(v.type() == Type::DOUBLE || v.type() == Type::INT || v.type() == Type::FRACTION, "type", [&] { return dump(v); });
        if (v.type() != Type::DOUBLE) {
            /* Only decimal numbers with few digits become exact. */
            const BigRat q = exactOf(v);
            c.require(BigInt(10000) % denominator(q) == 0, "fraction", [&] { return text(d) + " becomes " + dump(v); });
        } else
            c.require(back == d, "double", [&] { return text(d) + " becomes " + text(back); });
        c.require(tsym::isPositive(v) == (back > 0) && tsym::isNegative(v) == (back < 0), "sign", [&] { return text(d); });
        c.require(Var(d) == v && static_cast<double>(-v) == -back, "negation", [&] { return text(d); });
        c.label(typeName(v.type()));
        c.nontrivial(v.type() == Type::DOUBLE || d != std::floor(d));
    }
    /* Mixed arithmetic of doubles, exact numbers and constants. */
    void mixed(Ctx& c)
    {
        std::function<Ex(int)> rec = [&](int depth) -> Ex {
            if (depth <= 0)
                switch (c.weighted({40, 25, 15, 10, 10})) {
                    case 0:
                        return mkDbl(c.range(1, 100000) / (c.chance(50) ? 7777. : 777.) * (c.chance(30) ? -1 : 1));
                    case 1:
                        return mkInt(genInt(c, 30));
                    case 2:
                        return mkFrac(genInt(c, 30), c.range(1, 30));
                    case 3:
                        return mk(Op::Pi);
                    default:
                        return mk(Op::Sqrt, {mkInt(c.range(2, 30))});
                }
            switch (c.weighted({25, 15, 25, 15, 8, 8, 12})) {
                case 0:
                    return mk(Op::Add, {rec(depth - 1), rec(depth - 1)});
                case 1:
                    return mk(Op::Sub, {rec(depth - 1), rec(depth - 1)});
                case 2:
                    return mk(Op::Mul, {rec(depth - 1), rec(depth - 1)});
                case 3:
                    return mk(Op::Div, {rec(depth - 1), rec(depth - 1)});
                case 4:
                    return mk(Op::Pow, {rec(depth - 1), mkInt(c.range(-3, 3))});
                case 5:
                    return mk(Op::Pow, {rec(depth - 1), c.chance(50) ? fracExponent(c) : mkDbl(c.range(-400, 400) / 77.)});
                default:
                    return mk(c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan, Op::Log, Op::Sqrt}), {rec(depth - 1)});
            }
        };
        const Ex e = rec(c.range(1, 3));
        c.input(show(e));
        if (!inNumericRange(e) || doubleRisk(e) > 9)
            c.discard("out of range");
        const Dv want = walk(e);
        if (!want.ok)
            c.discard("no value or ill-conditioned");
        const Var v = build(e);
        c.require(v.type() != Type::UNDEFINED, "undefined", [&] { return show(e) + " is undefined"; });
        double d = 0;
        try {
            d = static_cast<double>(v);
        } catch (const std::domain_error& x) {
            c.fail("exception", dump(v) + " isn't converted: " + x.what());
        }
        Dv w = walk(v), sumErr = want;
        if (!w.ok)
            c.discard("ill-conditioned");
        sumErr.err += w.err;
        const Val precise = eval(e, {});
        if (precise.ok())
            sumErr.v = precise.v;
        compareWith(c, "mixed", sumErr, d, [&] { return show(e) + " = " + dump(v); });
        c.nontrivial(contains(e, Op::Dbl) && countNodes(e) >= 4);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C17";
    p.rule = "constants, radicals, symbolic: four or more nodes; creation: not integral; mixed: contains a double and has four or more nodes";
    p.beforeCase = resetLibrary;
    p.assumptions = {"the tolerance follows from propagating a relative error of 1e-15 and an absolute error of 3e-16 per operation, ill-conditioned expressions are skipped"};
    p.suites.push_back({"constants", 100000, 2000000, constants});
    p.suites.push_back({"radicals", 60000, 1000000, radicals});
    p.suites.push_back({"symbolic", 60000, 1000000, symbolic});
    p.suites.push_back({"creation", 200000, 5000000, creation});
    p.suites.push_back({"mixed", 80000, 2000000, mixed});
    return p;
}
