// Reference model: sparse multivariate polynomials with exact rational coefficients.
#ifndef VF_POLYMODEL_H
#define VF_POLYMODEL_H

#include "expr.h"

namespace vf {
    /* Exponents by name of the indeterminate. Zero exponents aren't stored. */
    using Mono = std::map<std::string, int>;

    class Poly {
      public:
        std::map<Mono, BigRat> t;

        Poly() = default;
        explicit Poly(const BigRat& c)
        {
            add({}, c);
        }
        static Poly sym(const std::string& name)
        {
            Poly p;
            p.add({{name, 1}}, 1);
            return p;
        }
        void add(const Mono& m, const BigRat& c)
        {
            if (c == 0)
                return;
            auto [it, fresh] = t.emplace(m, c);
            if (!fresh) {
                it->second += c;
                if (it->second == 0)
                    t.erase(it);
            }
        }
        bool zero() const
        {
            return t.empty();
        }
        bool isConst() const
        {
            return t.empty() || (t.size() == 1 && t.begin()->first.empty());
        }
        BigRat constTerm() const
        {
            const auto it = t.find({});
            return it == t.end() ? BigRat(0) : it->second;
        }
        bool operator==(const Poly& o) const
        {
            return t == o.t;
        }
        bool operator!=(const Poly& o) const
        {
            return t != o.t;
        }
        std::vector<std::string> vars() const
        {
            std::map<std::string, int> s;
            for (const auto& [m, c] : t)
                for (const auto& [n, e] : m)
                    s[n] = 1;
            std::vector<std::string> r;
            for (const auto& [n, x] : s)
                r.push_back(n);
            return r;
        }
        int degree(const std::string& x) const /* -1 for zero. */
        {
            int d = -1;
            for (const auto& [m, c] : t) {
                const auto it = m.find(x);
                d = std::max(d, it == m.end() ? 0 : it->second);
            }
            return d;
        }
        int totalDegree() const
        {
            int d = -1;
            for (const auto& [m, c] : t) {
                int s = 0;
                for (const auto& [n, e] : m)
                    s += e;
                d = std::max(d, s);
            }
            return d;
        }
        Poly coeff(const std::string& x, int d) const
        {
            Poly r;
            for (const auto& [m, c] : t) {
                const auto it = m.find(x);
                if ((it == m.end() ? 0 : it->second) != d)
                    continue;
                Mono n = m;
                n.erase(x);
                r.add(n, c);
            }
            return r;
        }
        std::string show() const
        {
            std::string s;
            for (const auto& [m, c] : t) {
                s += (s.empty() ? "" : " + ") + c.str();
                for (const auto& [n, e] : m)
                    s += "*" + n + (e == 1 ? "" : "^" + std::to_string(e));
            }
            return s.empty() ? "0" : s;
        }
    };

    Poly operator+(const Poly& a, const Poly& b);
    Poly operator-(const Poly& a, const Poly& b);
    Poly operator*(const Poly& a, const Poly& b);
    Poly scale(const Poly& a, const BigRat& f);
    Poly ppow(const Poly& a, int n);
    /* Exact quotient over Q, if b divides a. */
    std::optional<Poly> exactDiv(const Poly& a, const Poly& b);
    /* Greatest common divisor over Q, leading coefficient (lexicographically) 1. */
    Poly pgcd(const Poly& a, const Poly& b);
    /* Formal rational function. */
    struct RatFct {
        Poly n, d;
    };
    std::optional<RatFct> ratFctOf(const Ex& e); /* nullopt: not rational, or division by zero. */
    /* Recipes with greater exponents are discarded by polyOf and ratFctOf. */
    extern int maxModelExponent;
    std::optional<Poly> polyOf(const Ex& e);
    /* nullopt if the object isn't a polynomial expression (not necessarily expanded). */
    std::optional<Poly> polyOfVar(const tsym::Var& v);
    std::optional<RatFct> ratFctOfVar(const tsym::Var& v);
    bool isExpandedPolynomial(const tsym::Var& v); /* Sum of monomials. */
    tsym::Var varOf(const Poly& p, const std::map<std::string, bool>& positive = {});
    Ex exOf(const Poly& p, const std::map<std::string, bool>& positive = {});
    /* Random polynomial in the given symbols. */
    Poly genPoly(Ctx& c, const std::vector<std::string>& syms, unsigned maxTerms, int maxDeg, int maxCoeff, bool fractions);
}

#endif
