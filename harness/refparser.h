// Reference parser for the documented infix grammar, independent of the library.
#ifndef VF_REFPARSER_H
#define VF_REFPARSER_H

#include <cctype>
#include <cstdlib>
#include <set>
#include "expr.h"

namespace vf {
    /* ---- Reference: recursive descent over the documented grammar ----
     * expression := ['+'] summand (('+' | '-') summand)*
     * summand    := signed (('*' | '/') signed)*
     * signed     := factor | '-' factor
     * factor     := operand ('^' factor)*
     * operand    := function '(' expression [',' expression] ')' | constant | symbol | number | '(' expression ')'
     * White space is free between tokens. */
    struct Ref {
        const std::string& s;
        size_t p = 0;
        bool hasDouble = false, extreme = false;
        std::set<std::string> names;
        unsigned depth = 0, maxDepth = 0;

        explicit Ref(const std::string& s)
            : s(s)
        {}
        static bool space(char ch)
        {
            return ch == ' ' || (ch >= '\t' && ch <= '\r');
        }
        static bool digit(char ch)
        {
            return ch >= '0' && ch <= '9';
        }
        static bool alpha(char ch)
        {
            return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z');
        }
        static bool alnum(char ch)
        {
            return digit(ch) || alpha(ch);
        }
        void skip()
        {
            while (p < s.size() && space(s[p]))
                ++p;
        }
        char at(size_t i) const
        {
            return i < s.size() ? s[i] : '\0';
        }
        bool lit(char ch)
        {
            const size_t old = p;
            skip();
            if (p < s.size() && s[p] == ch) {
                ++p;
                return true;
            }
            p = old;
            return false;
        }
        Ex expression()
        {
            ++depth;
            maxDepth = std::max(depth, maxDepth);
            lit('+');
            Ex r = summand();
            while (r) {
                const size_t old = p;
                const bool plus = lit('+');
                if (!plus && !lit('-'))
                    break;
                const Ex x = summand();
                if (!x) {
                    p = old;
                    break;
                }
                r = mk(plus ? Op::Add : Op::Sub, {r, x});
            }
            --depth;
            return r;
        }
        Ex summand()
        {
            Ex r = signedOperand();
            while (r) {
                const size_t old = p;
                const bool mul = lit('*');
                if (!mul && !lit('/'))
                    break;
                const Ex x = signedOperand();
                if (!x) {
                    p = old;
                    break;
                }
                r = mk(mul ? Op::Mul : Op::Div, {r, x});
            }
            return r;
        }
        Ex signedOperand()
        {
            const size_t old = p;
            if (Ex r = factor())
                return r;
            p = old;
            if (lit('-')) {
                if (Ex r = factor())
                    return mk(Op::Neg, {r});
            }
            p = old;
            return nullptr;
        }
        Ex factor()
        {
            Ex r = operand();
            if (!r)
                return nullptr;
            while (true) {
                const size_t old = p;
                if (!lit('^'))
                    break;
                const Ex x = factor();
                if (!x) {
                    p = old;
                    break;
                }
                r = mk(Op::Pow, {r, x});
            }
            return r;
        }
        std::string lower(size_t from, size_t n) const
        {
            std::string r;
            for (size_t i = from; i < from + n && i < s.size(); ++i)
                r += static_cast<char>(s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i]);
            return r;
        }
        Ex function()
        {
            static const std::vector<std::pair<std::string, Op>> fcts{{"sin", Op::Sin}, {"cos", Op::Cos}, {"tan", Op::Tan},
              {"asin", Op::Asin}, {"acos", Op::Acos}, {"atan", Op::Atan}, {"log", Op::Log}, {"sqrt", Op::Sqrt}};
            const size_t old = p;
            skip();
            const size_t start = p;
            for (const auto& [n, op] : fcts) {
                p = start;
                if (lower(p, n.size()) != n)
                    continue;
                p += n.size();
                if (!lit('('))
                    continue;
                const Ex x = expression();
                if (x && lit(')'))
                    return mk(op, {x});
            }
            p = start;
            if (lower(p, 5) == "atan2") {
                p += 5;
                if (lit('(')) {
                    const Ex y = expression();
                    if (y && lit(',')) {
                        const Ex x = expression();
                        if (x && lit(')'))
                            return mk(Op::Atan2, {y, x});
                    }
                }
            }
            p = old;
            return nullptr;
        }
        Ex operand()
        {
            if (Ex r = function())
                return r;
            const size_t old = p;
            skip();
            if (Ex r = scalar())
                return r;
            p = old;
            if (lit('(')) {
                const Ex r = expression();
                if (r && lit(')'))
                    return r;
            }
            p = old;
            return nullptr;
        }
        Ex scalar()
        {
            const auto ends = [&](size_t i) { return !alnum(at(i)) && at(i) != '_'; };
            if (lower(p, 2) == "pi" && ends(p + 2)) {
                p += 2;
                return mk(Op::Pi);
            }
            if (lower(p, 5) == "euler" && ends(p + 5)) {
                p += 5;
                return mk(Op::E);
            }
            if (p < s.size() && alpha(s[p])) {
                std::string name;
                while (p < s.size() && alnum(s[p]))
                    name += s[p++];
                std::string sub;
                if (at(p) == '_') {
                    if (alnum(at(p + 1))) {
                        sub = at(p + 1);
                        p += 2;
                    } else if (at(p + 1) == '{') {
                        size_t q = p + 2;
                        while (q < s.size() && alnum(s[q]))
                            sub += s[q++];
                        if (!sub.empty() && at(q) == '}')
                            p = q + 1;
                        else
                            sub.clear();
                    }
                }
                if (sub.size() == 1)
                    name += "_" + sub;
                else if (!sub.empty())
                    name += "_{" + sub + "}";
                names.insert(name);
                return mkSym({name, false});
            }
            return number();
        }
        Ex number()
        {
            size_t q = p;
            while (q < s.size() && digit(s[q]))
                ++q;
            const size_t intEnd = q;
            bool real = false;
            if (at(q) == '.') {
                size_t f = q + 1;
                while (f < s.size() && digit(s[f]))
                    ++f;
                if (f > q + 1 || intEnd > p) {
                    q = f;
                    real = true;
                }
            }
            if ((real || intEnd > p) && (at(q) == 'e' || at(q) == 'E')) {
                size_t f = q + 1;
                if (at(f) == '+' || at(f) == '-')
                    ++f;
                const size_t d = f;
                while (f < s.size() && digit(s[f]))
                    ++f;
                if (f > d) {
                    q = f;
                    real = true;
                }
            }
            if (real) {
                const std::string t = s.substr(p, q - p);
                p = q;
                hasDouble = true;
                const size_t e = t.find_first_of("eE");
                const double order = e == std::string::npos ? 0 : std::atof(t.c_str() + e + 1);
                if (std::abs(order) > 100 || t.size() > 40)
                    extreme = true;
                return mkDbl(std::strtod(t.c_str(), nullptr));
            }
            if (intEnd == p)
                return nullptr;
            std::string t = s.substr(p, intEnd - p);
            p = intEnd;
            t.erase(0, std::min(t.find_first_not_of('0'), t.size() - 1));
            return mkInt(BigInt(t));
        }
        Ex whole()
        {
            const Ex r = expression();
            skip();
            return p == s.size() ? r : nullptr;
        }
    };
}

#endif
