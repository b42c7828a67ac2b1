// C07: equality is canonical, sound and consistent with hashing.
#include <unordered_map>
#include <unordered_set>
#include "../polymodel.h"

using namespace vf;
using tsym::Var;

namespace {
    Var combine(Ctx& c, Op op, std::vector<Var> v, std::string* how)
    /* Random order and grouping. */
    {
        std::vector<std::string> txt;
        for (size_t i = 0; i < v.size(); ++i)
            txt.push_back(std::to_string(i));
        while (v.size() > 1) {
            const size_t i = c.draw(static_cast<uint32_t>(v.size()));
            size_t j = c.draw(static_cast<uint32_t>(v.size() - 1));
            if (j >= i)
                ++j;
            Var r = v[i];
            if (op == Op::Add)
                r += v[j];
            else
                r *= v[j];
            std::string t = "(" + txt[i] + (op == Op::Add ? "+" : "*") + txt[j] + ")";
            v.erase(v.begin() + static_cast<long>(std::max(i, j)));
            txt.erase(txt.begin() + static_cast<long>(std::max(i, j)));
            v[std::min(i, j)] = r;
            txt[std::min(i, j)] = t;
        }
        *how = txt[0];
        return v[0];
    }

    void requireSame(Ctx& c, const Var& a, const Var& b, const std::string& what)
    {
        ++c.checks;
        const auto msg = [&] { return what + ": " + dump(a) + " vs. " + dump(b); };
        c.require(a == b && b == a, "not-equal", msg);
        c.require(!(a != b) && !(b != a), "inequality", msg);
        c.require(std::hash<Var>()(a) == std::hash<Var>()(b), "hash", msg);
        c.require(a.type() == b.type(), "type", msg);
        c.require(str(a) == str(b), "text", msg);
        c.require(tsym::name(a) == tsym::name(b), "name", msg);
        c.require(tsym::complexity(a) == tsym::complexity(b), "complexity", msg);
        c.require(dump(a) == dump(b), "structure", msg);
        std::unordered_set<Var> set{a};
        c.require(set.count(b) == 1, "hash-container", msg);
    }

    /* A constant factor is distributed over a sum if there are no other factors, so that the form depends on the order. */
    void factorKinds(const Var& v, bool* sum, bool* constant)
    {
        if (v.type() == Var::Type::PRODUCT) {
            for (const auto& f : tsym::operands(v))
                factorKinds(f, sum, constant);
            return;
        }
        if (v.type() == Var::Type::SUM || (v.type() == Var::Type::POWER && tsym::operands(v)[0].type() == Var::Type::SUM))
            *sum = true;
        if (v != 1 && tsym::collectSymbols(v).empty())
            *constant = true;
    }

    /* Finding numeric-power-forms: rational multiples of numeric powers have several equivalent forms that aren't unified
     * (sqrt(1/2) + sqrt(1/2) = sqrt(2), but sqrt(2) - sqrt(1/2) stays as it is; 3*3^a = 3^(1 + a)). */
    bool hasNumericPower(const Var& v)
    {
        const auto ops = tsym::operands(v);
        if (v.type() == Var::Type::POWER && (ops[0].type() == Var::Type::INT || ops[0].type() == Var::Type::FRACTION))
            return true;
        for (const auto& o : ops)
            if (hasNumericPower(o))
                return true;
        return false;
    }
    Ex longPart(Ctx& c, const GenCfg& g, bool product)
    {
        std::vector<Ex> a;
        for (int i = 0, n = c.range(2, 5); i < n; ++i) {
            const Ex s = g.syms.empty() ? mkInt(genInt(c, 9)) : mkSym(c.pick(g.syms));
            switch (c.weighted({60, 20, 20})) {
                case 0:
                    a.push_back(s);
                    break;
                case 1:
                    a.push_back(mk(Op::Pow, {s, mkInt(c.range(-3, 3))}));
                    break;
                default:
                    a.push_back(mk(c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Atan}), {s}));
            }
        }
        return mk(product && c.chance(5) ? Op::Add : Op::Mul, a);
    }
    void shuffle(Ctx& c, bool product, bool isLong = false)
    {
        std::string profile;
        GenCfg g = anyCfg(c, &profile);
        g.wDbl = 0;
        const bool repeat = c.chance(50);
        std::vector<Ex> parts;
        const int n = isLong ? c.range(5, 12) : c.range(2, 6);
        if (isLong && c.chance(70))
            g.syms = someSymbols(c, 10, 20);
        for (int i = 0; i < n; ++i) {
            if (isLong && c.chance(60))
                /* Terms of several factors that share most of them. */
                parts.push_back(longPart(c, g, product));
            else if (repeat && i > 0 && c.chance(50)) {
                /* Something that contracts with an earlier operand. */
                const Ex& prev = c.pick(parts);
                if (product)
                    parts.push_back(mk(Op::Pow, {prev, c.chance(70) ? mkInt(c.range(-3, 3)) : fracExponent(c)}));
                else
                    parts.push_back(mk(Op::Mul, {c.chance(60) ? mkInt(genInt(c, 5)) : genLeaf(c, g), prev}));
            } else
                parts.push_back(gen(c, g, static_cast<unsigned>(isLong ? c.range(1, 3) : c.range(1, 7))));
        }
        std::vector<Var> v;
        std::string text;
        double terms = 1;
        for (const auto& e : parts) {
            text += (text.empty() ? "" : ", ") + show(e);
            if (contains(e, Op::Dbl) || !inNumericRange(e))
                c.discard("out of range");
            terms *= estTerms(e);
        }
        if (terms > 200)
            c.discard("too many terms");
        c.input(std::string(product ? "product" : "sum") + " of " + text);
        for (const auto& e : parts)
            v.push_back(build(e));
        const Op op = product ? Op::Mul : Op::Add;
        std::string how1, how2;
        const Var a = combine(c, op, v, &how1);
        const Var b = combine(c, op, v, &how2);
        c.input(how1 + " vs. " + how2);
        if (a.type() == Var::Type::UNDEFINED || b.type() == Var::Type::UNDEFINED) {
            if (a.type() != b.type())
                c.label("undefined-one-side");
            c.discard("undefined");
        }
        for (const auto& x : v)
            if (hasUndeterminedRoot(x))
                c.discard("fractional power of undetermined sign");
        if (hasUndeterminedRoot(a) || hasUndeterminedRoot(b))
            c.discard("fractional power of undetermined sign");
        bool numericPower = hasNumericPower(a) || hasNumericPower(b);
        for (const auto& x : v)
            numericPower = numericPower || hasNumericPower(x);
        if (product) {
            bool sum = false, constant = false;
            for (const auto& x : v)
                factorKinds(x, &sum, &constant);
            factorKinds(a, &sum, &constant);
            factorKinds(b, &sum, &constant);
            if (sum && constant)
                c.discard("constant times sum");
        }
        if (numericPower && a != b) {
            /* Still of the same value? */
            std::map<std::string, bool> syms;
            for (const auto& e : parts)
                symbolsOf(e, syms);
            const Env env = randomEnv(c, syms, false);
            const Val x = evalVar(a, env), y = evalVar(b, env);
            if (x.ok() && y.ok() && compare(x, y) == Cmp::DIFFERENT)
                c.fail("value", dump(a) + " vs. " + dump(b) + " at " + show(env));
            c.known("numeric-power-forms", dump(a) + " vs. " + dump(b));
            c.label("numeric-power-form-differs");
            return;
        }
        c.label(numericPower ? "with-numeric-power" : "without-numeric-power");
        requireSame(c, a, b, "same operands");
        c.nontrivial(n >= 3 && how1 != how2);
        c.label("profile:" + profile);
    }
    void shuffleSum(Ctx& c)
    {
        shuffle(c, false);
    }
    void shuffleProduct(Ctx& c)
    {
        shuffle(c, true);
    }

    /* Equal objects by chance or construction: small expressions over a tiny vocabulary. */
    void soundness(Ctx& c)
    {
        std::string profile;
        GenCfg g = anyCfg(c, &profile);
        g.syms.resize(std::min<size_t>(g.syms.size(), 2));
        if (c.chance(30) && !g.syms.empty())
            g.syms.push_back({g.syms[0].name, !g.syms[0].positive});
        g.wDbl = 0;
        g.maxInt = 2;
        std::vector<Ex> e;
        std::vector<Var> v;
        const int n = c.range(2, 8);
        std::string text;
        for (int i = 0; i < n; ++i) {
            e.push_back(gen(c, g, static_cast<unsigned>(c.range(1, 6))));
            if (contains(e.back(), Op::Dbl) || !inNumericRange(e.back()) || estTerms(e.back()) > 50)
                c.discard("out of range");
            text += (text.empty() ? "" : ", ") + show(e.back());
        }
        c.input(text);
        for (const auto& x : e)
            v.push_back(build(x));
        std::unordered_map<Var, size_t> map;
        unsigned equal = 0;
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = 0; j <= i; ++j) {
                const Var &a = v[i], &b = v[j];
                const bool eq = a == b;
                ++c.checks;
                c.require(eq == (b == a), "symmetric", [&] { return dump(a) + " vs. " + dump(b); });
                c.require(eq == !(a != b), "inequality", [&] { return dump(a) + " vs. " + dump(b); });
                if (a.type() == Var::Type::UNDEFINED || b.type() == Var::Type::UNDEFINED) {
                    c.require(!eq, "undefined-equal", [&] { return dump(a) + " vs. " + dump(b); });
                    continue;
                }
                if (i == j)
                    c.require(eq, "reflexive", [&] { return dump(a); });
                c.require(eq == (dump(a) == dump(b)), "structure", [&] {
                    return dump(a) + " vs. " + dump(b) + (eq ? " compare equal" : " compare unequal");
                });
                if (!eq)
                    continue;
                requireSame(c, a, b, "equal objects");
                if (i == j)
                    continue;
                ++equal;
                /* Same value wherever both recipes have one. */
                std::map<std::string, bool> syms;
                symbolsOf(e[i], syms);
                symbolsOf(e[j], syms);
                const bool log = contains(e[i], Op::Log) || contains(e[j], Op::Log);
                const Env env = randomEnv(c, syms, !hasSymbolicExponent(e[i]) && !hasSymbolicExponent(e[j]));
                const Val x = eval(e[i], env), y = eval(e[j], env);
                if (x.ok() && y.ok())
                    c.require(compare(x, y) != Cmp::DIFFERENT, "value", [&] {
                        return show(e[i]) + " and " + show(e[j]) + " are equal, but have different values at " + show(env);
                    });
                (void)log;
            }
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].type() != Var::Type::UNDEFINED)
                map[v[i]] = i;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].type() == Var::Type::UNDEFINED)
                continue;
            const auto it = map.find(v[i]);
            c.require(it != map.end() && v[it->second] == v[i], "map", [&] { return dump(v[i]); });
        }
        c.nontrivial(equal > 0);
    }

    /* An expression and its negative, reciprocal, multiple. */
    void cancellation(Ctx& c)
    {
        std::string profile;
        GenCfg g = anyCfg(c, &profile);
        g.wDbl = 0;
        const Ex e = gen(c, g, static_cast<unsigned>(c.range(2, 14)));
        c.input(show(e));
        if (contains(e, Op::Dbl) || !inNumericRange(e) || estTerms(e) > 200)
            c.discard("out of range");
        const Var v = build(e);
        if (v.type() == Var::Type::UNDEFINED)
            c.discard("undefined");
        if (hasUndeterminedRoot(v))
            c.discard("fractional power of undetermined sign");
        const bool numericPower = hasNumericPower(v);
        const auto same = [&](const char* tag, const Var& a, const Var& b) {
            ++c.checks;
            if (a == b)
                return;
            if (numericPower || hasNumericPower(a) || hasNumericPower(b)) {
                std::map<std::string, bool> syms;
                symbolsOf(e, syms);
                const Env env = randomEnv(c, syms, false);
                const Val x = evalVar(a, env), y = evalVar(b, env);
                if (x.ok() && y.ok() && compare(x, y) == Cmp::DIFFERENT)
                    c.fail("value", dump(a) + " vs. " + dump(b) + " at " + show(env));
                c.known("numeric-power-forms", dump(a) + " vs. " + dump(b));
                return;
            }
            c.fail(tag, "for " + dump(v) + ": " + dump(a) + " vs. " + dump(b));
        };
        same("difference", v - v, Var(0));
        same("negative", -v + v, Var(0));
        same("double-negative", -(-v), v);
        same("double", v + v, 2 * v);
        same("triple", v + v - 3 * v, -v);
        /* The reciprocal of 2/(1 + a) is 1/2 + 1/2*a. */
        bool sum = false, constant = false;
        factorKinds(v, &sum, &constant);
        if (sum && constant)
            c.label("constant times sum");
        else if (v != 0) {
            same("quotient", v / v, Var(1));
            same("reciprocal", 1 / (1 / v), v);
            same("square", v * v, tsym::pow(v, 2));
            same("cube", v * v * v, tsym::pow(v, 3));
            same("unit", (v * v) / v, v);
        }
        same("neutral", 1 * v + 0, v);
        same("zero", 0 * v, Var(0));
        same("power-zero", tsym::pow(v, 0), Var(1));
        same("power-one", tsym::pow(v, 1), v);
        c.nontrivial(countNodes(e) > 3);
        c.label(numericPower ? "with-numeric-power" : "without-numeric-power");
    }

    /* Polynomials in several symbols (positive and arbitrary ones of the same name included) as unordered terms. */
    void terms(Ctx& c)
    {
        std::vector<std::string> names{"a", "b", "c"};
        if (c.chance(40))
            names.push_back("a+");
        if (c.chance(30))
            names.push_back("b_1");
        const Poly p = genPoly(c, names, 8, 5, 20, true);
        std::vector<Var> v;
        c.input(p.show());
        for (const auto& [m, k] : p.t) {
            Poly one;
            one.add(m, k);
            if (c.chance(30)) {
                /* Split into two parts. */
                const BigRat part(c.range(-5, 5));
                Poly x, y;
                x.add(m, part);
                y.add(m, k - part);
                v.push_back(varOf(x));
                v.push_back(varOf(y));
            } else
                v.push_back(varOf(one));
        }
        if (v.size() < 2)
            c.discard("single term");
        std::string h;
        const Var a = combine(c, Op::Add, v, &h), b = varOf(p);
        requireSame(c, a, b, "terms");
        c.nontrivial(p.t.size() >= 3);
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C07";
    p.rule = "shuffle: three or more operands, two different orders or groupings; soundness: two different recipes with equal "
             "results; terms: three or more terms";
    p.beforeCase = resetLibrary;
    p.assumptions = {"fractional powers of bases with undetermined sign are excluded from canonicality, because the library "
                     "deliberately doesn't contract them if that hides a possibly undefined factor",
      "floating point operands are excluded from canonicality"};
    p.findingProbes["numeric-power-forms"] = [] {
        const Var x = tsym::sqrt(Var(1, 2));
        return x + x - x == x ? std::string() : "x + x - x != x for x = sqrt(1/2)";
    };
    p.suites.push_back({"sums", 150000, 2000000, shuffleSum});
    p.suites.push_back({"products", 150000, 2000000, shuffleProduct});
    p.suites.push_back({"long-sums", 50000, 800000, [](Ctx& c) { shuffle(c, false, true); }});
    p.suites.push_back({"long-products", 50000, 800000, [](Ctx& c) { shuffle(c, true, true); }});
    p.suites.push_back({"soundness", 120000, 1000000, soundness});
    p.suites.push_back({"cancellation", 150000, 2000000, cancellation});
    p.suites.push_back({"terms", 60000, 500000, terms});
    return p;
}
