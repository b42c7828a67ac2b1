// C16: sign queries are sound.
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    /* Points with more variety than for value comparisons: zero, tiny, huge and integer values. */
    Env points(Ctx& c, const std::map<std::string, bool>& syms)
    {
        Env env = randomEnv(c, syms, true);
        for (auto& [name, v] : env) {
            const bool positive = name.back() == '+';
            switch (c.weighted({50, 10, 15, 15, 10})) {
                case 0:
                    break;
                case 1:
                    if (!positive)
                        v = vRat(0, 1);
                    break;
                case 2:
                    v = vRat(c.range(1, 20) * (!positive && c.chance(50) ? -1 : 1), c.chance(50) ? 1000 : 100000);
                    break;
                case 3:
                    v = vRat(c.range(5, 2000) * (!positive && c.chance(50) ? -1 : 1), 1);
                    break;
                default:
                    v = vRat(c.range(95, 105) * (!positive && c.chance(50) ? -1 : 1), 100);
            }
        }
        return env;
    }

    void verify(Ctx& c, const Ex& e, const Var& v)
    {
        const bool pos = tsym::isPositive(v), neg = tsym::isNegative(v);
        ++c.checks;
        c.require(!(pos && neg), "both", [&] { return dump(v) + " is said to be positive and negative"; });
        c.label(pos ? "positive" : neg ? "negative" : "unknown");
        if (v.type() == Type::UNDEFINED) {
            c.require(!pos && !neg, "undefined", [&] { return show(e); });
            return;
        }
        if (!pos && !neg)
            return;
        std::map<std::string, bool> syms;
        symbolsOf(e, syms);
        unsigned verdicts = 0;
        for (int i = 0; i < 6; ++i) {
            const Env env = points(c, syms);
            const Val x = evalVar(v, env);
            if (!x.ok() || abs(x.v) <= x.e)
                continue;
            ++verdicts;
            ++c.checks;
            c.require(pos ? x.v > 0 : x.v < 0, pos ? "not-positive" : "not-negative", [&] {
                return dump(v) + " is said to be " + (pos ? "positive" : "negative") + ", but has the value " + show(x) + " at " + show(env);
            });
            if (syms.empty())
                break;
        }
        c.nontrivial(verdicts > 0 && sizeOf(v) >= 3);
    }
    void everyPart(Ctx& c, const Ex& e)
    {
        c.input(show(e));
        if (estTerms(e) > 200 || !inNumericRange(e) || doubleRisk(e) > 9)
            c.discard("out of range");
        verify(c, e, build(e));
    }

    void any(Ctx& c)
    {
        GenCfg g = anyCfg(c);
        if (c.chance(60))
            for (auto& s : g.syms)
                s.positive = c.chance(80);
        everyPart(c, gen(c, g, static_cast<unsigned>(c.range(2, 16))));
    }
    /* Mostly decidable signs. */
    void signs(Ctx& c)
    {
        std::vector<SymInfo> syms = someSymbols(c, static_cast<unsigned>(c.range(1, 3)), 75);
        std::function<Ex(int)> rec = [&](int depth) -> Ex {
            if (depth <= 0)
                return c.chance(70) ? mkSym(c.pick(syms)) : (c.chance(20) ? mk(c.chance(50) ? Op::Pi : Op::E) : mkInt(genInt(c, 9)));
            std::vector<Ex> a;
            switch (c.weighted({25, 20, 12, 6, 8, 8, 6, 5, 5, 5})) {
                case 0:
                    for (int i = 0, n = c.range(2, 3); i < n; ++i)
                        a.push_back(rec(depth - 1));
                    return mk(Op::Add, a);
                case 1:
                    for (int i = 0, n = c.range(2, 3); i < n; ++i)
                        a.push_back(rec(depth - 1));
                    return mk(Op::Mul, a);
                case 2:
                    return mk(Op::Pow, {rec(depth - 1), mkInt(c.range(-4, 4))});
                case 3:
                    return mk(Op::Pow, {rec(depth - 1), fracExponent(c)});
                case 4:
                    return mk(Op::Neg, {rec(depth - 1)});
                case 5:
                    return mk(Op::Log, {rec(depth - 1)});
                case 6:
                    return mk(Op::Atan, {rec(depth - 1)});
                case 7:
                    return mk(c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos}), {rec(depth - 1)});
                case 8:
                    return mk(Op::Pow, {rec(depth - 1), rec(depth - 1)});
                default:
                    return mk(Op::Atan2, {rec(depth - 1), rec(depth - 1)});
            }
        };
        everyPart(c, rec(c.range(1, 4)));
    }
    void longLists(Ctx& c)
    {
        everyPart(c, genLong(c, 5, c.chance(40), c.chance(70) ? 100 : 60));
    }
    void constants(Ctx& c)
    {
        const Ex e = gen(c, constCfg(c), static_cast<unsigned>(c.range(2, 12)));
        everyPart(c, e);
        const Var v = build(e);
        const Val x = eval(e, Env());
        if (!x.ok() || v.type() != Type::SUM || abs(x.v) < Mp("1e-6"))
            return;
        ++c.checks;
        c.require(tsym::isPositive(v) == (x.v > 0) && tsym::isNegative(v) == (x.v < 0), "constant", [&] { return dump(v) + " should be " + (x.v > 0 ? "positive" : "negative"); });
    }

    /* Sums and products of numbers, constants and positive symbols are classified completely, if all summands have the same sign. */
    void complete(Ctx& c)
    {
        const auto natural = [&](unsigned digits) { return digits == 1 ? BigInt(c.range(1, 99)) : BigInt(abs(genBigInt(c, digits))) + 1; };
        const bool doubles = c.chance(30); /* Then numbers of moderate magnitude only. */
        const auto atom = [&](int* sign) {
            *sign = 1;
            switch (c.weighted({30, 30, 15, doubles ? 15u : 0u, 15})) {
                case 0: {
                    *sign = c.chance(40) ? -1 : 1;
                    return ratVar(natural(doubles ? 1 : c.chance(20) ? 30 : 3) * *sign, 1);
                }
                case 1:
                    return Var(std::string(1, static_cast<char>('a' + c.draw(4))), Var::Sign::POSITIVE);
                case 2:
                    return c.chance(50) ? tsym::pi() : tsym::euler();
                case 3: {
                    *sign = c.chance(40) ? -1 : 1;
                    return Var(*sign * static_cast<double>(c.range(1, 10000)) / 777.);
                }
                default: {
                    *sign = c.chance(40) ? -1 : 1;
                    return ratVar(natural(doubles ? 1 : 4) * *sign, natural(doubles ? 1 : 4));
                }
            }
        };
        const auto product = [&](int* sign) {
            Var r(1);
            *sign = 1;
            for (int i = 0, n = c.range(1, 3); i < n; ++i) {
                int s = 1;
                const Var f = atom(&s);
                if (f == 0) {
                    --i;
                    continue;
                }
                if (!doubles && c.chance(20)) {
                    const int k = c.range(-3, 3);
                    r *= tsym::pow(f, Var(k));
                    *sign *= k % 2 == 0 ? 1 : s;
                } else {
                    r *= f;
                    *sign *= s;
                }
            }
            return r;
        };
        const auto expect = [&](const Var& v, int sign, const char* tag) {
            ++c.checks;
            c.require(tsym::isPositive(v) == (sign > 0) && tsym::isNegative(v) == (sign < 0), tag, [&] { return dump(v) + " should be " + (sign > 0 ? "positive" : "negative"); });
        };
        int s1 = 1;
        Var a = atom(&s1);
        c.input(str(a));
        if (a == 0) {
            c.require(!tsym::isPositive(a) && !tsym::isNegative(a), "zero", [&] { return dump(a); });
            return;
        }
        expect(a, s1, "atom");
        a = product(&s1);
        c.input(str(a));
        expect(a, s1, "product");
        Var sum;
        const int n = c.range(2, 4);
        for (int i = 0; i < n; ++i) {
            int s2 = 1;
            Var x = product(&s2);
            if (s2 != s1)
                x = -x;
            sum += x;
        }
        c.input(str(sum));
        expect(sum, s1, "sum");
        expect(-sum, -s1, "negated-sum");
        c.nontrivial(sum.type() == Type::SUM);
    }
    /* Numbers near zero and near each other. */
    void differences(Ctx& c)
    {
        const BigInt n = genBigInt(c, c.chance(50) ? 40 : 18), d = genBigInt(c, c.chance(50) ? 40 : 18);
        if (d == 0)
            c.discard("zero");
        const int k = c.range(-3, 3);
        const BigInt e = abs(genBigInt(c, c.chance(50) ? 60 : 10)) + 1;
        c.input(n.str() + "/" + d.str() + " + " + std::to_string(k) + "/" + e.str());
        const Var a = ratVar(n, d), b = a + ratVar(k, e);
        const Var x = b - a;
        ++c.checks;
        c.require(tsym::isPositive(x) == (k > 0) && tsym::isNegative(x) == (k < 0) && (x == 0) == (k == 0), "difference", [&] { return dump(x); });
        const BigRat q(n, d);
        c.require(tsym::isPositive(a) == (q > 0) && tsym::isNegative(a) == (q < 0), "number", [&] { return dump(a); });
        c.nontrivial(k != 0);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C16";
    p.rule = "any, signs, constants: a definite answer for an expression of three or more nodes, evaluated at one or more points; complete: the "
             "result is a sum; differences: not zero";
    p.beforeCase = resetLibrary;
    p.suites.push_back({"any", 160000, 2000000, any});
    p.suites.push_back({"signs", 250000, 3000000, signs});
    p.suites.push_back({"long", 30000, 500000, longLists});
    p.suites.push_back({"constants", 60000, 1500000, constants});
    p.suites.push_back({"complete", 60000, 1500000, complete});
    p.suites.push_back({"differences", 30000, 1000000, differences});
    return p;
}
