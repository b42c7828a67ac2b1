#include "polymodel.h"

namespace vf {
    using tsym::Var;

    Poly operator+(const Poly& a, const Poly& b)
    {
        Poly r = a;
        for (const auto& [m, c] : b.t)
            r.add(m, c);
        return r;
    }
    Poly operator-(const Poly& a, const Poly& b)
    {
        Poly r = a;
        for (const auto& [m, c] : b.t)
            r.add(m, -c);
        return r;
    }
    Poly operator*(const Poly& a, const Poly& b)
    {
        Poly r;
        if (a.t.size() * b.t.size() > 40000)
            throw Discard{"polynomial model too large"};
        for (const auto& [m, c] : a.t)
            for (const auto& [n, d] : b.t) {
                Mono x = m;
                for (const auto& [s, e] : n)
                    x[s] += e;
                r.add(x, c * d);
            }
        return r;
    }
    Poly scale(const Poly& a, const BigRat& f)
    {
        Poly r;
        for (const auto& [m, c] : a.t)
            r.add(m, c * f);
        return r;
    }
    Poly ppow(const Poly& a, int n)
    {
        Poly r(BigRat(1));
        for (int i = 0; i < n; ++i)
            r = r * a;
        return r;
    }

    namespace {
        /* Lexicographic order of monomials, used for division only. */
        bool lexLess(const Mono& a, const Mono& b)
        {
            auto i = a.begin();
            auto j = b.begin();
            while (i != a.end() && j != b.end()) {
                if (i->first != j->first)
                    return i->first > j->first; /* The one with the earlier symbol is larger. */
                if (i->second != j->second)
                    return i->second < j->second;
                ++i;
                ++j;
            }
            return i == a.end() && j != b.end();
        }
        const std::pair<const Mono, BigRat>& leading(const Poly& p)
        {
            const std::pair<const Mono, BigRat>* best = &*p.t.begin();
            for (const auto& x : p.t)
                if (lexLess(best->first, x.first))
                    best = &x;
            return *best;
        }
        std::optional<Mono> monoDiv(const Mono& a, const Mono& b)
        {
            Mono r = a;
            for (const auto& [s, e] : b) {
                const auto it = r.find(s);
                if (it == r.end() || it->second < e)
                    return std::nullopt;
                it->second -= e;
                if (it->second == 0)
                    r.erase(it);
            }
            return r;
        }
        Poly monic(const Poly& p)
        {
            return p.zero() ? p : scale(p, BigRat(1) / leading(p).second);
        }
        Poly pgcdRec(const Poly& a, const Poly& b, unsigned depth);
        Poly content(const Poly& a, const std::string& x, unsigned depth)
        {
            Poly g;
            for (int i = 0; i <= a.degree(x); ++i) {
                const Poly k = a.coeff(x, i);
                if (!k.zero())
                    g = pgcdRec(g, k, depth + 1);
                if (!g.zero() && g.isConst())
                    break;
            }
            return g;
        }
        Poly pgcdRec(const Poly& a, const Poly& b, unsigned depth)
        {
            if (a.zero())
                return monic(b);
            if (b.zero())
                return monic(a);
            if (a.isConst() || b.isConst())
                return Poly(BigRat(1));
            std::string x;
            for (const auto& v : a.vars())
                if (b.degree(v) > 0) {
                    x = v;
                    break;
                }
            if (x.empty())
                return Poly(BigRat(1));
            const Poly ca = content(a, x, depth), cb = content(b, x, depth);
            const Poly cg = pgcdRec(ca, cb, depth + 1);
            Poly u = *exactDiv(a, ca), v = *exactDiv(b, cb);
            if (u.degree(x) < v.degree(x))
                std::swap(u, v);
            while (v.degree(x) > 0) {
                /* Pseudo-remainder. */
                Poly r = u;
                const int dv = v.degree(x);
                const Poly lv = v.coeff(x, dv);
                while (!r.zero() && r.degree(x) >= dv) {
                    const int k = r.degree(x) - dv;
                    const Poly lr = r.coeff(x, r.degree(x));
                    Poly shift(BigRat(1));
                    if (k > 0)
                        shift = ppow(Poly::sym(x), k);
                    r = r * lv - v * lr * shift;
                    if (r.t.size() > 3000)
                        throw Discard{"polynomial model too large"};
                }
                if (r.zero())
                    return monic(cg * v);
                u = v;
                v = *exactDiv(r, content(r, x, depth));
            }
            return monic(cg);
        }
    }

    std::optional<Poly> exactDiv(const Poly& a, const Poly& b)
    {
        Poly r = a, q;
        if (b.zero())
            return std::nullopt;
        const auto& lb = leading(b);
        while (!r.zero()) {
            const auto lr = leading(r);
            const auto m = monoDiv(lr.first, lb.first);
            if (!m)
                return std::nullopt;
            Poly s;
            s.add(*m, lr.second / lb.second);
            q = q + s;
            r = r - s * b;
        }
        return q;
    }
    Poly pgcd(const Poly& a, const Poly& b)
    {
        return pgcdRec(a, b, 0);
    }

    std::optional<RatFct> ratFctOf(const Ex& e)
    {
        const Poly one(BigRat(1));
        switch (e->op) {
            case Op::Int:
                return RatFct{Poly(BigRat(e->num)), one};
            case Op::Frac:
                if (e->den == 0)
                    return std::nullopt;
                return RatFct{Poly(BigRat(e->num) / BigRat(e->den)), one};
            case Op::Sym:
                return RatFct{Poly::sym(e->sym.name + (e->sym.positive ? "+" : "")), one};
            case Op::Neg: {
                auto a = ratFctOf(e->args[0]);
                if (a)
                    a->n = scale(a->n, -1);
                return a;
            }
            case Op::Add:
            case Op::Sub:
            case Op::Mul:
            case Op::Div: {
                auto r = ratFctOf(e->args[0]);
                for (size_t i = 1; r && i < e->args.size(); ++i) {
                    const auto b = ratFctOf(e->args[i]);
                    if (!b)
                        return std::nullopt;
                    if (e->op == Op::Mul)
                        r = RatFct{r->n * b->n, r->d * b->d};
                    else if (e->op == Op::Div) {
                        if (b->n.zero())
                            return std::nullopt;
                        r = RatFct{r->n * b->d, r->d * b->n};
                    } else if (e->op == Op::Add)
                        r = r->d == b->d ? RatFct{r->n + b->n, r->d} : RatFct{r->n * b->d + b->n * r->d, r->d * b->d};
                    else
                        r = r->d == b->d ? RatFct{r->n - b->n, r->d} : RatFct{r->n * b->d - b->n * r->d, r->d * b->d};
                    if (r->n.t.size() + r->d.t.size() > 600)
                        throw Discard{"polynomial model too large"};
                }
                return r;
            }
            case Op::Pow: {
                const auto b = ratFctOf(e->args[0]);
                if (!b || e->args[1]->op != Op::Int)
                    return std::nullopt;
                const BigInt n = e->args[1]->num;
                if (n > maxModelExponent || n < -maxModelExponent)
                    throw Discard{"polynomial model too large"};
                const int k = static_cast<int>(n);
                if (k < 0 && b->n.zero())
                    return std::nullopt;
                if (k >= 0)
                    return RatFct{ppow(b->n, k), ppow(b->d, k)};
                return RatFct{ppow(b->d, -k), ppow(b->n, -k)};
            }
            default:
                return std::nullopt;
        }
    }
    int maxModelExponent = 12;

    std::optional<Poly> polyOf(const Ex& e)
    {
        const auto r = ratFctOf(e);
        if (!r)
            return std::nullopt;
        if (r->d.isConst())
            return scale(r->n, BigRat(1) / r->d.constTerm());
        return exactDiv(r->n, r->d);
    }

    std::optional<RatFct> ratFctOfVar(const Var& v)
    {
        const Poly one(BigRat(1));
        switch (v.type()) {
            case Var::Type::INT:
            case Var::Type::FRACTION:
                return RatFct{Poly(exactOf(v)), one};
            case Var::Type::SYMBOL:
                return RatFct{Poly::sym(tsym::name(v) + (tsym::isPositive(v) ? "+" : "")), one};
            case Var::Type::SUM: {
                RatFct r{Poly(), one};
                for (const auto& op : tsym::operands(v)) {
                    const auto s = ratFctOfVar(op);
                    if (!s)
                        return std::nullopt;
                    r = r.d == s->d ? RatFct{r.n + s->n, r.d} : RatFct{r.n * s->d + s->n * r.d, r.d * s->d};
                    if (r.n.t.size() + r.d.t.size() > 4000)
                        throw Discard{"polynomial model too large"};
                }
                return r;
            }
            case Var::Type::PRODUCT: {
                RatFct r{one, one};
                for (const auto& op : tsym::operands(v)) {
                    const auto s = ratFctOfVar(op);
                    if (!s)
                        return std::nullopt;
                    r = RatFct{r.n * s->n, r.d * s->d};
                }
                return r;
            }
            case Var::Type::POWER: {
                const auto ops = tsym::operands(v);
                const auto b = ratFctOfVar(ops[0]);
                if (!b || ops[1].type() != Var::Type::INT)
                    return std::nullopt;
                const BigRat n = exactOf(ops[1]);
                if (n > 60 && n < 100000 && ops[0].type() == Var::Type::SYMBOL) {
                    Mono m = b->n.t.begin()->first;
                    m.begin()->second = static_cast<int>(boost::multiprecision::numerator(n));
                    Poly power;
                    power.add(m, BigRat(1));
                    return RatFct{power, one};
                }
                if (n > 60 || n < -60)
                    return std::nullopt;
                const int k = static_cast<int>(boost::multiprecision::numerator(n));
                if (k >= 0)
                    return RatFct{ppow(b->n, k), ppow(b->d, k)};
                if (b->n.zero())
                    return std::nullopt;
                return RatFct{ppow(b->d, -k), ppow(b->n, -k)};
            }
            default:
                return std::nullopt;
        }
    }
    std::optional<Poly> polyOfVar(const Var& v)
    {
        const auto r = ratFctOfVar(v);
        if (!r || !r->d.isConst() || r->d.zero())
            return std::nullopt;
        return scale(r->n, BigRat(1) / r->d.constTerm());
    }

    namespace {
        bool isNumber(const Var& v)
        {
            return v.type() == Var::Type::INT || v.type() == Var::Type::FRACTION;
        }
        bool isMonomialFactor(const Var& v)
        {
            if (v.type() == Var::Type::SYMBOL)
                return true;
            if (v.type() != Var::Type::POWER)
                return false;
            const auto ops = tsym::operands(v);
            return ops[0].type() == Var::Type::SYMBOL && ops[1].type() == Var::Type::INT && exactOf(ops[1]) > 0;
        }
        bool isMonomial(const Var& v)
        {
            if (isNumber(v) || isMonomialFactor(v))
                return true;
            if (v.type() != Var::Type::PRODUCT)
                return false;
            for (const auto& f : tsym::operands(v))
                if (!isNumber(f) && !isMonomialFactor(f))
                    return false;
            return true;
        }
    }
    bool isExpandedPolynomial(const Var& v)
    {
        if (v.type() != Var::Type::SUM)
            return isMonomial(v);
        for (const auto& s : tsym::operands(v))
            if (!isMonomial(s))
                return false;
        return true;
    }

    namespace {
        SymInfo infoOf(const std::string& name)
        {
            if (!name.empty() && name.back() == '+')
                return {name.substr(0, name.size() - 1), true};
            return {name, false};
        }
    }
    Ex exOf(const Poly& p, const std::map<std::string, bool>&)
    {
        std::vector<Ex> terms;
        for (const auto& [m, c] : p.t) {
            std::vector<Ex> f;
            const BigInt n = boost::multiprecision::numerator(c), d = boost::multiprecision::denominator(c);
            if (m.empty() || c != 1)
                f.push_back(d == 1 ? mkInt(n) : mkFrac(n, d));
            for (const auto& [s, e] : m)
                f.push_back(e == 1 ? mkSym(infoOf(s)) : mk(Op::Pow, {mkSym(infoOf(s)), mkInt(e)}));
            terms.push_back(f.size() == 1 ? f[0] : mk(Op::Mul, f));
        }
        if (terms.empty())
            return mkInt(0);
        return terms.size() == 1 ? terms[0] : mk(Op::Add, terms);
    }
    Var varOf(const Poly& p, const std::map<std::string, bool>& positive)
    {
        return build(exOf(p, positive));
    }

    Poly genPoly(Ctx& c, const std::vector<std::string>& syms, unsigned maxTerms, int maxDeg, int maxCoeff, bool fractions)
    {
        Poly p;
        const int n = c.range(1, static_cast<int>(maxTerms));
        for (int i = 0; i < n; ++i) {
            Mono m;
            int left = c.range(0, maxDeg);
            while (left > 0) {
                const int e = c.range(1, left);
                m[c.pick(syms)] += e;
                left -= e;
            }
            BigRat k(genInt(c, maxCoeff));
            if (fractions && c.chance(30))
                k /= c.range(1, 12);
            p.add(m, k);
        }
        return p;
    }
}
