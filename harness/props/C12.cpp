// C12: polynomial division and gcd.
#include <limits>
#include "../polymodel.h"
#include "base.h"
#include "poly.h"
#include "polyinfo.h"
#include "primitivegcd.h"
#include "subresultantgcd.h"

using namespace vf;
using tsym::BasePtr;
using tsym::BasePtrList;
using tsym::Var;

namespace {
    const std::vector<std::vector<std::string>>& nameSets()
    {
        static const std::vector<std::vector<std::string>> sets{
          {"a"}, {"a", "b"}, {"x", "y", "z"}, {"a", "b", "c", "d"}, {"a", "a+"}, {"p+", "q+"}, {"x_1", "x_2", "alpha"}};
        return sets;
    }

    Poly polyOfPtr(Ctx& c, const BasePtr& p, const std::string& what)
    {
        const auto r = polyOfVar(Var(p));
        c.require(static_cast<bool>(r), "not-a-polynomial", [&] { return what + " is " + dump(Var(p)); });
        return *r;
    }
    bool isUndef(const BasePtr& p)
    {
        return Var(p).type() == Var::Type::UNDEFINED;
    }
    std::string keyOf(const BasePtr& symbol)
    {
        const Var v(symbol);
        return tsym::name(v) + (tsym::isPositive(v) ? "+" : "");
    }
    BasePtr symPtr(const std::string& key)
    {
        return varOf(Poly::sym(key)).get();
    }

    bool divisibleRec(const Poly& u, const Poly& v)
    {
        return static_cast<bool>(exactDiv(u, v));
    }

    Poly genFactor(Ctx& c, const std::vector<std::string>& names, bool small)
    {
        Poly p = genPoly(c, names, small ? 3 : 4, small ? 2 : 3, c.chance(15) ? 1000 : 9, c.chance(25));
        if (p.zero())
            p = Poly::sym(names[0]) + Poly(BigRat(1));
        return p;
    }

    void guard(Ctx& c, const Poly& p)
    {
        if (p.t.size() > 60 || p.totalDegree() > 12)
            c.discard("too large");
    }

    void division(Ctx& c)
    {
        const auto& names = c.pick(nameSets());
        const Poly v = genFactor(c, names, true), k = genFactor(c, names, true);
        Poly u;
        bool exact = false;
        switch (c.range(0, 3)) {
            case 0:
                u = genPoly(c, names, 6, 5, 9, c.chance(30));
                break;
            case 1:
                u = v * k;
                exact = true;
                break;
            case 2:
                u = v * k + genPoly(c, names, 3, 2, 9, c.chance(30));
                break;
            default:
                u = v * k * k;
                exact = true;
        }
        guard(c, u);
        c.input("(" + u.show() + ")/(" + v.show() + ")");
        const BasePtr pu = varOf(u).get(), pv = varOf(v).get();
        if (u.zero() && v.zero())
            c.discard("both zero");
        BasePtrList order = tsym::poly::listOfSymbols(*pu, *pv);
        BasePtrList res;
        if (c.chance(50)) {
            res = tsym::poly::divide(pu, pv);
        } else {
            /* Any order of the symbols. */
            std::vector<BasePtr> o(order.begin(), order.end());
            for (size_t i = o.size(); i > 1; --i)
                std::swap(o[i - 1], o[c.draw(static_cast<uint32_t>(i))]);
            order.clear();
            for (const auto& x : o)
                order.push_back(x);
            res = tsym::poly::divide(pu, pv, order);
        }
        ++c.checks;
        const Poly q = polyOfPtr(c, res.front(), "the quotient"), r = polyOfPtr(c, res.back(), "the remainder");
        const auto msg = [&] { return "quotient " + q.show() + ", remainder " + r.show(); };
        c.require(isExpandedPolynomial(Var(res.front())) && isExpandedPolynomial(Var(res.back())), "not-expanded",
          [&] { return dump(Var(res.front())) + ", " + dump(Var(res.back())); });
        c.require(q * v + r == u, "identity", msg);
        const bool divisible = divisibleRec(u, v);
        c.require(divisible == r.zero(), "divisibility", msg);
        c.require(!exact || r.zero(), "exact-division", msg);
        if (!r.zero() && !order.empty()) {
            /* No further step possible: lower degree, or a leading coefficient that can't be divided. */
            const std::string x = keyOf(order.front());
            const int dr = r.degree(x), dv = v.degree(x);
            c.require(dr < dv || !divisibleRec(r.coeff(x, dr), v.coeff(x, dv)), "reducible", msg);
            if (names.size() == 1)
                c.require(dr < dv, "univariate-remainder", msg);
        }
        c.nontrivial(v.t.size() >= 2 && u.t.size() >= 3);
        c.label(r.zero() ? "remainder-zero" : q.zero() ? "quotient-zero" : "both-nonzero");
    }

    void pseudoDivision(Ctx& c)
    {
        const auto& names = c.pick(nameSets());
        const Poly v = genFactor(c, names, true);
        Poly u = genPoly(c, names, 6, 5, 9, c.chance(30));
        if (c.chance(20))
            u = u * v;
        if (u.zero())
            c.discard("zero");
        guard(c, u);
        const std::string x = c.pick(names);
        c.input("pseudo (" + u.show() + ")/(" + v.show() + ") wrt. " + x);
        const BasePtr pu = varOf(u).get(), pv = varOf(v).get(), px = symPtr(x);
        const BasePtrList res = tsym::poly::pseudoDivide(pu, pv, px);
        const BasePtr rem = tsym::poly::pseudoRemainder(pu, pv, px);
        ++c.checks;
        const Poly q = polyOfPtr(c, res.front(), "the quotient"), r = polyOfPtr(c, res.back(), "the remainder");
        const auto msg = [&] { return "quotient " + q.show() + ", remainder " + r.show(); };
        c.require(polyOfPtr(c, rem, "the remainder") == r, "pseudo-remainder", msg);
        const int m = u.degree(x), n = v.degree(x);
        const Poly lc = v.coeff(x, n);
        c.require(ppow(lc, std::max(m - n + 1, 0)) * u == q * v + r, "pseudo-identity", msg);
        c.require(r.zero() || r.degree(x) < n, "pseudo-degree", msg);
        c.nontrivial(v.degree(x) > 0 && m >= n);
    }

    BigInt intContent(const Poly& p, bool* integral)
    {
        BigInt g = 0;
        *integral = true;
        for (const auto& [m, k] : p.t) {
            if (denominator(k) != 1)
                *integral = false;
            g = gcd(g, BigInt(abs(numerator(k))));
        }
        return g;
    }

    void requireGcd(Ctx& c, const Poly& u, const Poly& v, const Poly& want, const BasePtr& result, const char* algo)
    {
        ++c.checks;
        c.require(!isUndef(result), "gcd-undefined", [&] { return std::string(algo) + " gives Undefined"; });
        const Poly g = polyOfPtr(c, result, "the gcd");
        const auto msg = [&] { return std::string(algo) + " gives " + g.show() + ", but the gcd is " + want.show(); };
        c.require(!g.zero(), "gcd-zero", msg);
        c.require(u.zero() || exactDiv(u, g), "gcd-divides", msg);
        c.require(v.zero() || exactDiv(v, g), "gcd-divides", msg);
        c.require(static_cast<bool>(exactDiv(g, want)), "gcd-greatest", msg);
        bool iu, iv, ig;
        const BigInt cu = intContent(u, &iu), cv = intContent(v, &iv), cg = intContent(g, &ig);
        if (iu && iv) {
            c.label("integer-coefficients");
            /* A gcd of polynomials over the integers. */
            c.require(ig && cg == gcd(cu, cv), "gcd-integer-content", [&] { return msg() + " up to the integer content"; });
        }
    }

    void greatestCommonDivisor(Ctx& c)
    {
        const auto& names = c.pick(nameSets());
        Poly u = genFactor(c, names, true), v = genFactor(c, names, true), f = genFactor(c, names, true);
        Ex eu, ev;
        const unsigned kind = c.weighted({2, 5, 2, 1, 1, 1});
        switch (kind) {
            case 0:
                eu = exOf(u);
                ev = exOf(v);
                f = Poly(BigRat(1));
                break;
            case 1:
                eu = mk(Op::Mul, {exOf(u), exOf(f)});
                ev = mk(Op::Mul, {exOf(f), exOf(v)});
                u = u * f;
                v = v * f;
                break;
            case 2:
                eu = mk(Op::Mul, {mk(Op::Pow, {exOf(f), mkInt(2)}), exOf(u)});
                ev = mk(Op::Mul, {exOf(f), exOf(v)});
                u = u * f * f;
                v = v * f;
                break;
            case 3:
                eu = mk(Op::Pow, {exOf(f), mkInt(c.range(2, 4))});
                ev = exOf(f);
                u = *polyOf(eu);
                v = f;
                break;
            case 4:
                eu = exOf(u);
                ev = mkInt(0);
                f = u;
                v = Poly();
                break;
            default: {
                const int n = static_cast<int>(genInt(c, 60)), m = static_cast<int>(genInt(c, 60));
                eu = mk(Op::Mul, {mkInt(n), exOf(f)});
                ev = mk(Op::Mul, {mkInt(m), exOf(f)});
                u = scale(f, n);
                v = scale(f, m);
            }
        }
        guard(c, u);
        guard(c, v);
        if (c.chance(50)) { /* Expanded form. */
            eu = exOf(u);
            ev = exOf(v);
        }
        if (c.chance(30)) {
            std::swap(eu, ev);
            std::swap(u, v);
        }
        c.input("gcd of " + show(eu) + " and " + show(ev));
        const Poly want = pgcd(u, v);
        c.require(static_cast<bool>(exactDiv(want, f)), "model", [&] { return "internal error of the model: " + want.show(); });
        const BasePtr pu = build(eu).get(), pv = build(ev).get();
        const tsym::PrimitiveGcd primitive;
        const tsym::SubresultantGcd subresultant;
        requireGcd(c, u, v, want, tsym::poly::gcd(pu, pv, subresultant), "the subresultant algorithm");
        requireGcd(c, u, v, want, tsym::poly::gcd(pu, pv, primitive), "the primitive algorithm");
        requireGcd(c, u, v, want, tsym::poly::gcd(pu, pv), "the default");
        c.nontrivial(!want.isConst());
        c.label(want.isConst() ? "coprime" : want.t.size() > 1 ? "gcd-with-terms" : "gcd-monomial");
    }

    void structure(Ctx& c)
    {
        const auto& names = c.pick(nameSets());
        Poly u = genPoly(c, names, 8, 6, c.chance(20) ? 100000 : 9, c.chance(40));
        if (u.zero())
            c.discard("zero");
        const std::string x = c.pick(names);
        c.input(u.show() + " wrt. " + x);
        const BasePtr p = varOf(u).get(), px = symPtr(x);
        ++c.checks;
        const int d = u.degree(x);
        int low = std::numeric_limits<int>::max();
        for (int i = d; i >= 0; --i)
            if (!u.coeff(x, i).zero())
                low = i;
        const auto num = [](int i) { return std::to_string(i); };
        c.require(p->degree(*px) == d, "degree", [&] { return "degree " + num(p->degree(*px)) + ", expected " + num(d); });
        c.require(tsym::poly::minDegree(*p, *px) == low, "min-degree",
          [&] { return "min. degree " + num(tsym::poly::minDegree(*p, *px)) + ", expected " + num(low); });
        for (int i = 0; i <= d + 1; ++i) {
            const Poly got = polyOfPtr(c, p->coeff(*px, i), "the coefficient");
            c.require(got == u.coeff(x, i), "coeff",
              [&] { return "coeff " + num(i) + " = " + got.show() + ", expected " + u.coeff(x, i).show(); });
        }
        const Poly lc = polyOfPtr(c, p->leadingCoeff(*px), "the leading coefficient");
        c.require(lc == u.coeff(x, d), "leading-coeff", [&] { return lc.show() + ", expected " + u.coeff(x, d).show(); });
        /* Degree of unexpanded powers and products. */
        const Poly w = genFactor(c, names, true);
        const int n = c.range(2, 4);
        const Var prod = varOf(u) * tsym::pow(varOf(w), n);
        c.require(prod.get()->degree(*px) == d + n * w.degree(x), "degree-product",
          [&] { return "degree of " + dump(prod) + " is " + num(prod.get()->degree(*px)); });
        /* Content: gcd of the coefficients. */
        if (u.t.size() <= 5) {
            Poly want;
            for (int i = 0; i <= d; ++i)
                want = pgcd(want, u.coeff(x, i));
            const tsym::PrimitiveGcd primitive;
            for (int algo = 0; algo < 2; ++algo) {
                const BasePtr k = algo ? tsym::poly::content(p, px, primitive) : tsym::poly::content(p, px);
                const Poly got = polyOfPtr(c, k, "the content");
                const auto msg = [&] { return "content " + got.show() + ", expected " + want.show(); };
                c.require(!got.zero() && exactDiv(got, want) && exactDiv(want, got), "content", msg);
                bool iu, ig;
                const BigInt cu = intContent(u, &iu), cg = intContent(got, &ig);
                if (iu && names.size() == 1)
                    c.require(ig && cu == cg, "content-integer", msg);
            }
        }
        if (names.size() == 1) {
            const int unit = tsym::poly::unit(*p, *px);
            c.require(unit == (lc.constTerm() < 0 ? -1 : 1), "unit", [&] { return num(unit); });
        }
        c.nontrivial(u.t.size() >= 3 && d > 0);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C12";
    p.rule = "division: divisor with two or more terms, dividend with three or more; pseudo-division: at least one step; gcd: not "
             "constant; structure: three or more terms";
    p.beforeCase = resetLibrary;
    p.suites.push_back({"division", 60000, 1500000, division});
    p.suites.push_back({"pseudo-division", 30000, 700000, pseudoDivision});
    p.suites.push_back({"gcd", 30000, 700000, greatestCommonDivisor});
    p.suites.push_back({"structure", 40000, 700000, structure});
    return p;
}
