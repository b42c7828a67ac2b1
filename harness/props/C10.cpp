// C10: integer and rational arithmetic is exact.
#include <cmath>
#include <limits>
#include "../expr.h"
#include "number.h"
#include "numberfct.h"

using namespace vf;
using tsym::Var;

namespace {
    std::string ratStr(const BigRat& r)
    {
        const BigInt n = numerator(r), d = denominator(r);
        return d == 1 ? n.str() : n.str() + "/" + d.str();
    }

    /* Text, type, sign, numerator, denominator of a number. */
    void requireNumber(Ctx& c, const Var& v, const BigRat& want, const std::string& what)
    {
        ++c.checks;
        const auto msg = [&] { return what + " should be " + ratStr(want) + ", but is " + dump(v) + " (" + typeName(v.type()) + ")"; };
        const BigInt n = numerator(want), d = denominator(want);
        c.require(v.type() == (d == 1 ? Var::Type::INT : Var::Type::FRACTION), "type", msg);
        c.require(str(v) == ratStr(want), "text", msg);
        c.require(tsym::isPositive(v) == (want > 0), "isPositive", msg);
        c.require(tsym::isNegative(v) == (want < 0), "isNegative", msg);
        c.require(tsym::operands(v).empty(), "operands", msg);
        c.require((v == 0) == (want == 0), "zero", msg);
        c.require((v == 1) == (want == 1), "one", msg);
    }

    /* The number by various construction routes. */
    Var route(Ctx& c, const BigRat& r)
    {
        const BigInt n = numerator(r), d = denominator(r);
        const bool small = abs(n) <= std::numeric_limits<int>::max() && d <= std::numeric_limits<int>::max();
        const auto integer = [&](const BigInt& i) {
            if (abs(i) <= std::numeric_limits<int>::max() && c.chance(50))
                return Var(static_cast<int>(i));
            std::string s = BigInt(abs(i)).str();
            if (c.chance(10))
                s = "00" + s;
            if (i >= 0)
                return Var(s);
            switch (c.range(0, 2)) {
                case 0:
                    return Var("-" + s);
                case 1:
                    return -Var(s);
                default:
                    return 0 - Var(s);
            }
        };
        switch (c.weighted({4, 3, 2, 2, 2, 1})) {
            case 0:
                if (small)
                    return d == 1 && c.chance(50) ? Var(static_cast<int>(n)) : Var(static_cast<int>(n), static_cast<int>(d));
                return integer(n) / integer(d);
            case 1:
                return integer(n) / integer(d);
            case 2: { /* Not in lowest terms. */
                const BigInt f = genBigInt(c, 12) + 0;
                if (f == 0)
                    return integer(n) / integer(d);
                return integer(n * f) / integer(d * f);
            }
            case 3: /* Negative denominator. */
                if (small)
                    return Var(static_cast<int>(-n), static_cast<int>(-d));
                return integer(-n) / integer(-d);
            case 4: { /* Parsed. */
                const auto p = tsym::parse((n < 0 ? "-" + BigInt(-n).str() : n.str()) + "/" + d.str());
                return p ? *p : Var("undefined parse");
            }
            default:
                return integer(n) * tsym::pow(integer(d), -1);
        }
    }

    BigRat genRat(Ctx& c, unsigned digits)
    {
        BigInt n = c.chance(50) ? genInt(c, 12) : genBigInt(c, digits), d = 1;
        if (c.chance(8))
            n = 0;
        if (c.chance(55))
            d = c.chance(60) ? BigInt(c.range(1, 12)) : BigInt(abs(genBigInt(c, digits)));
        if (d == 0)
            d = 1;
        return BigRat(n, d);
    }

    BigRat rpow(BigRat b, int e)
    {
        if (e < 0)
            b = 1 / b;
        BigRat r = 1;
        for (int i = 0; i < std::abs(e); ++i)
            r *= b;
        return r;
    }

    unsigned bitsOf(const BigRat& r)
    {
        const BigInt n = abs(numerator(r)), d = denominator(r);
        return (n == 0 ? 0 : static_cast<unsigned>(msb(n))) + static_cast<unsigned>(msb(d));
    }

    /* A history of operations on a pool of numbers. */
    void history(Ctx& c)
    {
        const unsigned digits = static_cast<unsigned>(c.pick(std::vector<int>{9, 3, 19, 40, 200}));
        std::vector<Var> v;
        std::vector<BigRat> r;
        std::vector<std::string> hist;
        bool big = false;
        const int n0 = c.range(1, 3);
        for (int i = 0; i < n0; ++i) {
            r.push_back(genRat(c, digits));
            v.push_back(route(c, r.back()));
            c.input("x" + std::to_string(i) + " = " + ratStr(r.back()));
            requireNumber(c, v.back(), r.back(), "the created number");
        }
        const int steps = c.range(1, 10);
        for (int s = 0; s < steps; ++s) {
            const size_t i = c.draw(static_cast<uint32_t>(v.size())), j = c.draw(static_cast<uint32_t>(v.size()));
            const std::string xi = "x" + std::to_string(i), xj = "x" + std::to_string(j);
            Var x;
            BigRat want;
            std::string what;
            const unsigned op = c.weighted({4, 4, 4, 4, 3, 2, 2, 2});
            switch (op) {
                case 0:
                    x = v[i] + v[j];
                    want = r[i] + r[j];
                    what = xi + " + " + xj;
                    break;
                case 1:
                    x = v[i] * v[j];
                    want = r[i] * r[j];
                    what = xi + "*" + xj;
                    break;
                case 2:
                    x = v[i] - v[j];
                    want = r[i] - r[j];
                    what = xi + " - " + xj;
                    break;
                case 3:
                    x = v[i] / v[j];
                    what = xi + "/" + xj;
                    if (r[j] == 0) {
                        c.input(what);
                        c.require(x.type() == Var::Type::UNDEFINED, "division-by-zero", [&] { return what + " = " + dump(x); });
                        continue;
                    }
                    want = r[i] / r[j];
                    break;
                case 4: {
                    const int e = c.range(-6, 8);
                    if (bitsOf(r[i]) * static_cast<unsigned>(std::abs(e)) > 6000)
                        continue;
                    what = xi + "^" + std::to_string(e);
                    x = tsym::pow(v[i], e);
                    if (r[i] == 0 && e < 0) {
                        c.input(what);
                        c.require(x.type() == Var::Type::UNDEFINED, "division-by-zero", [&] { return what + " = " + dump(x); });
                        continue;
                    }
                    want = rpow(r[i], e);
                    break;
                }
                case 5:
                    x = -v[i];
                    want = -r[i];
                    what = "-" + xi;
                    break;
                case 6: { /* Compound assignment, possibly with itself. */
                    x = v[i];
                    const int k = c.range(0, 3);
                    const bool self = c.chance(30);
                    const Var& rhs = self ? x : v[j];
                    const BigRat rr = self ? r[i] : r[j];
                    what = "x = " + xi + "; x " + "+-*/"[k] + "= " + (self ? "x" : xj);
                    if (k == 3 && rr == 0)
                        continue;
                    if (k == 0) {
                        x += rhs;
                        want = r[i] + rr;
                    } else if (k == 1) {
                        x -= rhs;
                        want = r[i] - rr;
                    } else if (k == 2) {
                        x *= rhs;
                        want = r[i] * rr;
                    } else {
                        x /= rhs;
                        want = r[i] / rr;
                    }
                    break;
                }
                default: { /* Cancelling pair: (x + y) - y or (x*y)/y. */
                    if (c.chance(50) && r[j] != 0) {
                        x = v[i] * v[j] / v[j];
                        what = xi + "*" + xj + "/" + xj;
                    } else {
                        x = v[i] + v[j] - v[j];
                        what = xi + " + " + xj + " - " + xj;
                    }
                    want = r[i];
                }
            }
            if (bitsOf(want) > 8000)
                c.discard("too large");
            c.input(what);
            requireNumber(c, x, want, what);
            big = big || bitsOf(want) > 64;
            v.push_back(x);
            r.push_back(want);
        }
        /* Equality, order and identity of all pairs. */
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                ++c.checks;
                c.require((v[i] == v[j]) == (r[i] == r[j]) && (v[i] != v[j]) == (r[i] != r[j]), "equality",
                  [&] { return ratStr(r[i]) + " and " + ratStr(r[j]) + " compare wrong"; });
                if (r[i] == r[j])
                    c.require(std::hash<Var>()(v[i]) == std::hash<Var>()(v[j]), "hash", [&] { return ratStr(r[i]); });
            }
        c.nontrivial(v.size() >= 4 && big);
        c.label(big ? "beyond-64-bit" : "small");
    }

    /* Neighbours: exact comparison where doubles can't distinguish. */
    void order(Ctx& c)
    {
        BigRat a = genRat(c, static_cast<unsigned>(c.pick(std::vector<int>{5, 18, 30, 60, 320})));
        BigRat b;
        BigInt scale = 1;
        switch (c.range(0, 5)) {
            case 0:
                b = a;
                break;
            case 1:
                b = -a;
                break;
            case 2:
                for (int i = 0, n = c.range(1, 60); i < n; ++i)
                    scale *= 10;
                b = a + BigRat(c.chance(50) ? -1 : 1, scale);
                break;
            case 3:
                b = a + (c.chance(50) ? -1 : 1);
                break;
            case 4:
                for (int i = 0, n = c.range(1, 60); i < n; ++i)
                    scale *= 10;
                b = a * (1 + BigRat(c.chance(50) ? -1 : 1, scale));
                break;
            default:
                b = genRat(c, 20);
        }
        c.input(ratStr(a) + " vs. " + ratStr(b));
        const Var x = route(c, a), y = route(c, b);
        const auto msg = [&] { return ratStr(a) + " vs. " + ratStr(b); };
        ++c.checks;
        c.require((x == y) == (a == b), "equality", msg);
        requireNumber(c, x - y, a - b, "difference");
        /* Comparison operators of the number class. */
        const tsym::Number nx(tsym::Int(numerator(a).str()), tsym::Int(denominator(a).str())),
          ny(tsym::Int(numerator(b).str()), tsym::Int(denominator(b).str()));
        c.require((nx < ny) == (a < b) && (nx > ny) == (a > b) && (nx <= ny) == (a <= b) && (nx >= ny) == (a >= b) &&
            (nx == ny) == (a == b) && (nx != ny) == (a != b),
          "number-order", msg);
        c.require(tsym::sign(nx) == (a < 0 ? -1 : a > 0 ? 1 : 0), "number-sign", msg);
        c.require(tsym::isInt(nx) == (denominator(a) == 1), "number-isInt", msg);
        c.require(tsym::isEvenInt(nx) == (denominator(a) == 1 && numerator(a) % 2 == 0), "number-isEven", msg);
        c.require(tsym::isOddInt(nx) == (denominator(a) == 1 && numerator(a) % 2 != 0), "number-isOdd", msg);
        c.require(tsym::abs(nx) == (a < 0 ? -nx : nx) && tsym::abs(nx) >= 0, "number-abs", msg);
        /* Domain boundaries depend on exact comparison. */
        const BigRat q = c.chance(50) ? a : b;
        if (bitsOf(q) < 700) {
            const Var z = route(c, q);
            const bool inside = q >= -1 && q <= 1;
            const BigRat rest = abs(q) - 1;
            if (abs(rest) > BigRat(1, 1000000000) || rest == 0) {
                c.require((tsym::asin(z).type() != Var::Type::UNDEFINED) == inside, "asin-domain", [&] { return ratStr(q); });
                c.require((tsym::acos(z).type() != Var::Type::UNDEFINED) == inside, "acos-domain", [&] { return ratStr(q); });
            }
            c.require((tsym::sqrt(z).type() != Var::Type::UNDEFINED) == (q >= 0), "sqrt-domain", [&] { return ratStr(q); });
            if (q <= 0 || abs(q) > BigRat(1, 1000000000))
                c.require((tsym::log(z).type() != Var::Type::UNDEFINED) == (q > 0), "log-domain", [&] { return ratStr(q); });
        }
        c.nontrivial(a != b && abs(a - b) < abs(a) / 1000000);
    }

    void conversion(Ctx& c)
    {
        BigRat a;
        switch (c.range(0, 3)) {
            case 0:
                a = c.pick(std::vector<long long>{0, 1, -1, 2147483647ll, -2147483647ll, -2147483648ll, 2147483648ll,
                  -2147483649ll, 4294967296ll, 4294967295ll, -4294967296ll, 9223372036854775807ll, 1ll << 53, (1ll << 53) + 1,
                  (1ll << 62) + 1, 4294967297ll, 2147483646ll});
                if (c.chance(30))
                    a += c.range(-2, 2);
                break;
            case 1:
                a = genRat(c, 10);
                break;
            case 2:
                a = genRat(c, 400);
                break;
            default: {
                const BigInt n = genBigInt(c, 320);
                a = BigRat(n) / BigRat(1 + abs(genBigInt(c, 320)));
            }
        }
        c.input(ratStr(a));
        const Var x = route(c, a);
        ++c.checks;
        const bool isInt = denominator(a) == 1;
        const bool fits = isInt && a >= std::numeric_limits<int>::min() && a <= std::numeric_limits<int>::max();
        std::string result;
        try {
            const int i = static_cast<int>(x);
            c.require(fits && a == i, "int-value", [&] { return "int(" + ratStr(a) + ") = " + std::to_string(i); });
        } catch (const std::overflow_error&) {
            c.require(isInt && !fits, "int-overflow", [&] { return "overflow_error for " + ratStr(a); });
        } catch (const std::domain_error&) {
            c.require(!isInt, "int-domain", [&] { return "domain_error for " + ratStr(a); });
        }
        const double d = static_cast<double>(x);
        const BigInt n = abs(numerator(a)), den = denominator(a);
        const int e = (n == 0 ? 0 : static_cast<int>(msb(n))) - static_cast<int>(msb(den));
        const auto msg = [&] {
            std::ostringstream s;
            s.precision(17);
            s << "double(" << ratStr(a) << ") = " << d;
            return s.str();
        };
        if (e > 1030)
            c.require(std::isinf(d) && (d > 0) == (a > 0), "double-huge", msg);
        else if (e < 1020 && e > -1000) {
            c.require(std::isfinite(d), "double-finite", msg);
            const BigRat back = [&] {
                int ex = 0;
                const double m = std::frexp(d, &ex);
                BigRat r(BigInt(static_cast<long long>(std::ldexp(m, 53))));
                const BigInt two = BigInt(1) << static_cast<unsigned>(std::abs(ex - 53));
                return ex >= 53 ? BigRat(r * two) : BigRat(r / two);
            }();
            c.require(abs(back - a) <= abs(a) * BigRat(4, BigInt(1) << 53), "double-value", msg);
            c.label("double-compared");
        }
        c.nontrivial(!fits);
    }

    /* Numbers as coefficients and exponents inside of expressions. */
    void coefficients(Ctx& c)
    {
        const BigRat a = genRat(c, 40), b = genRat(c, 40), k = genRat(c, 5);
        c.input(ratStr(a) + ", " + ratStr(b) + ", " + ratStr(k));
        const Var x("x"), va = route(c, a), vb = route(c, b), vk = route(c, k);
        const auto coeff = [&](const Var& v, const BigRat& want, const std::string& what) {
            ++c.checks;
            const auto msg = [&] { return what + ": " + dump(v) + ", expected " + ratStr(want); };
            if (want == 0)
                c.require(v == 0 && v.type() == Var::Type::INT, "coefficient-zero", msg);
            else if (want == 1)
                c.require(v == x, "coefficient-one", msg);
            else {
                c.require(v.type() == Var::Type::PRODUCT, "coefficient-type", msg);
                const auto ops = tsym::operands(v);
                c.require(ops.size() == 2 && ops[1] == x && exactOf(ops[0]) == want, "coefficient-value", msg);
            }
        };
        coeff(va * x + vb * x, a + b, "a*x + b*x");
        coeff(va * x - vb * x, a - b, "a*x - b*x");
        coeff(va * (x * vb), a * b, "a*(x*b)");
        if (b != 0)
            coeff(va * x / vb, a / b, "a*x/b");
        coeff(x * va * vb * vk, a * b * k, "x*a*b*k");
        /* Exponents: x^a*x^b. */
        const Var p("p", Var::Sign::POSITIVE);
        const auto expo = [&](const Var& v, const BigRat& want, const std::string& what) {
            ++c.checks;
            const auto msg = [&] { return what + ": " + dump(v) + ", expected exponent " + ratStr(want); };
            if (want == 0)
                c.require(v == 1, "exponent-zero", msg);
            else if (want == 1)
                c.require(v == p, "exponent-one", msg);
            else {
                c.require(v.type() == Var::Type::POWER, "exponent-type", msg);
                const auto ops = tsym::operands(v);
                c.require(ops[0] == p && exactOf(ops[1]) == want, "exponent-value", msg);
            }
        };
        expo(tsym::pow(p, va) * tsym::pow(p, vb), a + b, "p^a*p^b");
        expo(tsym::pow(tsym::pow(p, va), vb), a * b, "(p^a)^b");
        expo(tsym::pow(p, va) / tsym::pow(p, vb), a - b, "p^a/p^b");
        /* Sum and constant term. */
        const Var s = (x + va) + (vb - x);
        requireNumber(c, s, a + b, "(x + a) + (b - x)");
        c.nontrivial(bitsOf(a) > 31 || bitsOf(b) > 31);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C10";
    p.rule = "history: four or more numbers, one of them beyond 64 bit; order: different numbers with a relative distance below "
             "1e-6; conversion: not representable as int; coefficients: operands beyond 31 bit";
    p.beforeCase = resetLibrary;
    p.suites.push_back({"history", 150000, 3000000, history});
    p.suites.push_back({"order", 150000, 2000000, order});
    p.suites.push_back({"conversion", 100000, 2000000, conversion});
    p.suites.push_back({"coefficients", 80000, 2000000, coefficients});
    return p;
}
