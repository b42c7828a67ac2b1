// C19: numeric powers and radicals reduce to exact forms.
#include <functional>
#include "../expr.h"

using namespace vf;
using tsym::Var;
using Type = tsym::Var::Type;

namespace {
    BigInt ipow(BigInt b, unsigned n)
    {
        BigInt r = 1;
        while (n-- > 0)
            r *= b;
        return r;
    }
    /* The n-th root, if it is an integer. */
    std::optional<BigInt> iroot(const BigInt& x, unsigned n)
    {
        BigInt lo = 0, hi = 1;
        while (ipow(hi, n) < x)
            hi *= 2;
        while (lo < hi) {
            const BigInt mid = (lo + hi) / 2;
            if (ipow(mid, n) < x)
                lo = mid + 1;
            else
                hi = mid;
        }
        if (ipow(lo, n) == x)
            return lo;
        return std::nullopt;
    }
    const BigInt limit = 1000; /* Default of the library for the prime factorisation. */

    bool squareFree(const BigInt& n)
    {
        for (BigInt i = 2; i * i <= n; ++i)
            if (n % (i * i) == 0)
                return false;
        return true;
    }
    bool hasDouble(const Var& v)
    {
        if (v.type() == Type::DOUBLE)
            return true;
        for (const auto& o : tsym::operands(v))
            if (hasDouble(o))
                return true;
        return false;
    }
    bool isRational(const Var& v)
    {
        return v.type() == Type::INT || v.type() == Type::FRACTION;
    }

    BigRat base(Ctx& c, int max)
    {
        static const std::vector<int> primes{2, 3, 5, 7, 11, 13, 17, 19, 23, 97, 101};
        const auto integer = [&]() -> BigInt {
            switch (c.weighted({30, 40, 30})) {
                case 0:
                    return c.range(1, std::min(30, max));
                case 1: { /* Smooth. */
                    BigInt r = 1;
                    for (int i = 0, n = c.range(1, 6); i < n; ++i) {
                        const BigInt p = c.pick(primes);
                        if (r * p <= max)
                            r *= p;
                    }
                    return r;
                }
                default:
                    return c.range(1, max);
            }
        };
        const BigInt n = integer(), d = c.chance(50) ? BigInt(1) : integer();
        return BigRat(n, d);
    }
    Var var(const BigRat& q)
    {
        return ratVar(numerator(q), denominator(q));
    }
    std::string text(const BigRat& q)
    {
        return q.str();
    }

    Val value(const BigRat& b, const BigRat& e)
    {
        return vPow(vRat(numerator(b), denominator(b)), vRat(numerator(e), denominator(e)));
    }
    void requireValue(Ctx& c, const char* tag, const Var& v, const Val& want, const std::string& what)
    {
        ++c.checks;
        c.require(!hasDouble(v), "floating-point", [&] { return what + " becomes " + dump(v); });
        const Val got = evalVar(v, {});
        c.require(got.st != Val::St::UNDEF && (!got.ok() || compare(got, want) != Cmp::DIFFERENT), tag, [&] { return what + " becomes " + dump(v) + " = " + show(got) + " instead of " + show(want); });
    }

    /* b^(m/n). */
    void power(Ctx& c)
    {
        BigRat b = base(c, c.chance(10) ? 1000000 : 1000);
        const unsigned n = static_cast<unsigned>(c.range(1, 8));
        const int m = c.range(-9, 9);
        const BigRat e(m, n);
        c.input("(" + text(b) + ")^(" + text(e) + ")");
        const std::string what = "(" + text(b) + ")^(" + text(e) + ")";
        const Var v = tsym::pow(var(b), var(e));
        requireValue(c, "value", v, value(b, e), what);
        const bool resolvable = numerator(b) <= limit && denominator(b) <= limit;
        const unsigned index = static_cast<unsigned>(denominator(e));
        const auto rn = iroot(numerator(b), index), rd = iroot(denominator(b), index);
        const bool rational = (rn && rd) || m == 0;
        if (resolvable)
            c.require(isRational(v) == rational, "rational", [&] { return what + " becomes " + dump(v); });
        else if (isRational(v))
            c.require(rational, "rational", [&] { return what + " becomes " + dump(v); });
        /* Forms of the same power. */
        const auto same = [&](const char* tag, const Var& w) {
            ++c.checks;
            c.require(w == v, tag, [&] { return what + " becomes " + dump(v) + " and " + dump(w); });
        };
        if (resolvable) {
            same("reciprocal", tsym::pow(var(1 / b), var(-e)));
            const Var inverse = 1 / v;
            c.require(inverse * v == 1, "inverse", [&] { return what + " * " + dump(inverse); });
            c.require(v / v == 1 && v - v == 0, "cancel", [&] { return what; });
            same("double-inverse", 1 / inverse);
            /* Back again. */
            if (m != 0 && std::abs(m) < static_cast<int>(index)) {
                const Var back = tsym::pow(v, var(1 / e));
                c.require(back == var(b), "back", [&] { return what + " = " + dump(v) + ", to the " + text(1 / e) + " becomes " + dump(back); });
            }
        }
        c.nontrivial(index > 1 && (numerator(b) > 3 || denominator(b) > 1));
    }
    /* The n-th root to the n is the radicand. */
    void roots(Ctx& c)
    {
        const BigRat b = base(c, 1000);
        const unsigned n = static_cast<unsigned>(c.range(2, 7));
        const std::string what = "(" + text(b) + ")^(1/" + std::to_string(n) + ")";
        c.input(what);
        const Var r = tsym::pow(var(b), Var(1, static_cast<int>(n)));
        requireValue(c, "value", r, value(b, BigRat(1, n)), what);
        if (n == 2)
            c.require(tsym::sqrt(var(b)) == r, "sqrt", [&] { return what; });
        Var p(1);
        for (unsigned i = 1; i <= n; ++i) {
            p *= r;
            requireValue(c, "partial", p, value(b, BigRat(i, n)), what + " multiplied " + std::to_string(i) + " times");
            const Var q = tsym::pow(r, Var(static_cast<int>(i)));
            requireValue(c, "power", q, value(b, BigRat(i, n)), what + " to the " + std::to_string(i));
        }
        c.require(p == var(b), "radicand", [&] { return what + " multiplied " + std::to_string(n) + " times is " + dump(p); });
        const Var q = tsym::pow(r, Var(static_cast<int>(n)));
        c.require(q == var(b), "radicand-power", [&] { return what + " to the " + std::to_string(n) + " is " + dump(q); });
        c.nontrivial(!isRational(r));
    }
    /* Products and quotients of roots with the same index, extraction of perfect powers. */
    void combine(Ctx& c)
    {
        const int n = c.chance(60) ? 2 : c.range(3, 5);
        const Var e(1, n);
        const BigRat a = base(c, 31), b = base(c, 31);
        if (n > 2)
            for (const auto& x : {a, b, BigRat(a * b), BigRat(a / b)})
                if (!squareFree(numerator(x)) || !squareFree(denominator(x)))
                    c.discard("repeated prime factors of a higher root");
        const std::string what = "a = " + text(a) + ", b = " + text(b) + ", index " + std::to_string(n);
        c.input(what);
        const Var ra = tsym::pow(var(a), e), rb = tsym::pow(var(b), e);
        const auto same = [&](const char* tag, const Var& x, const Var& y) {
            ++c.checks;
            c.require(x == y, tag, [&] { return what + ": " + dump(x) + " and " + dump(y); });
        };
        same("product", ra * rb, tsym::pow(var(a * b), e));
        same("quotient", ra / rb, tsym::pow(var(a / b), e));
        same("commutative", ra * rb, rb * ra);
        const BigInt k = c.range(2, n == 2 ? 20 : n == 3 ? 6 : 3);
        const BigRat kn(ipow(k, static_cast<unsigned>(n)));
        if (numerator(a * kn) <= limit && denominator(a / kn) <= limit) {
            same("extraction", tsym::pow(var(a * kn), e), var(BigRat(k)) * ra);
            same("extraction-quotient", tsym::pow(var(a / kn), e), ra / var(BigRat(k)));
        }
        requireValue(c, "sum", ra + rb, vAdd(value(a, BigRat(1, n)), value(b, BigRat(1, n))), what + " sum");
        same("doubled", ra + ra, 2 * ra);
        same("vanishing", ra + rb - rb - ra, Var(0));
        c.nontrivial(!isRational(ra) && !isRational(rb));
    }
    /* Negative bases. */
    void negative(Ctx& c)
    {
        const BigRat b = -base(c, 5000);
        const int m = c.range(-6, 6), n = c.range(1, 5);
        const BigRat e(m, n);
        const std::string what = "(" + text(b) + ")^(" + text(e) + ")";
        c.input(what);
        const Var v = tsym::pow(var(b), var(e));
        ++c.checks;
        if (denominator(e) == 1) {
            BigRat want(1);
            for (int i = 0; i < std::abs(m / n); ++i)
                want *= m > 0 ? b : 1 / b;
            c.require(isRational(v) && exactOf(v) == want, "integer-power", [&] { return what + " becomes " + dump(v); });
        } else
            c.require(v.type() == Type::UNDEFINED, "not-undefined", [&] { return what + " becomes " + dump(v); });
        c.nontrivial(n > 1);
    }
    /* Large perfect powers, beyond the limit of the factorisation. */
    void perfect(Ctx& c)
    {
        const unsigned n = static_cast<unsigned>(c.range(2, 6));
        const BigInt a = 1 + abs(genBigInt(c, c.chance(50) ? 4 : 9)), d = c.chance(50) ? BigInt(1) : 1 + abs(genBigInt(c, 4));
        const BigRat q(a, d);
        const BigRat b(ipow(numerator(q), n), ipow(denominator(q), n));
        const std::string what = "(" + text(b) + ")^(1/" + std::to_string(n) + ")";
        c.input(what);
        const Var v = tsym::pow(var(b), Var(1, static_cast<int>(n)));
        requireValue(c, "value", v, vRat(numerator(q), denominator(q)), what);
        c.label(isRational(v) ? "resolved" : "unresolved");
        if (isRational(v))
            c.require(exactOf(v) == q, "root", [&] { return what + " becomes " + dump(v); });
        else
            c.require(numerator(b) > limit || denominator(b) > limit, "unresolved", [&] { return what + " becomes " + dump(v); });
        const Var p = tsym::pow(v, Var(static_cast<int>(n)));
        c.require(p == var(b), "radicand", [&] { return what + " = " + dump(v) + ", its power is " + dump(p); });
        c.nontrivial(a > 100);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C19";
    p.rule = "power: fractional exponent and a base other than 1, 2, 3; roots, combine: irrational roots; negative: fractional exponent possible; "
             "perfect: base above 100";
    p.beforeCase = resetLibrary;
    p.suites.push_back({"power", 100000, 3000000, power});
    p.suites.push_back({"roots", 60000, 1000000, roots});
    p.suites.push_back({"combine", 60000, 1000000, combine});
    p.suites.push_back({"negative", 20000, 300000, negative});
    p.suites.push_back({"perfect", 40000, 600000, perfect});
    return p;
}
