// C14: symbols are identified by name, subscript and sign assumption.
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "../refparser.h"
#include "tsym/plaintextprintengine.h"

using namespace vf;
using tsym::Var;

namespace {
    std::string ascii(const Var& v)
    {
        std::ostringstream s;
        tsym::PlaintextPrintEngine e(s, tsym::PlaintextPrintEngine::CharSet::ASCII);
        tsym::print(e, v);
        return s.str();
    }
    std::string unicode(const Var& v)
    {
        std::ostringstream s;
        tsym::PlaintextPrintEngine e(s);
        tsym::print(e, v);
        return s.str();
    }

    struct NameModel {
        std::string value, sub;
        bool operator==(const NameModel& o) const
        {
            return value == o.value && sub == o.sub;
        }
        std::string full(const std::string& v) const
        {
            return sub.empty() ? v : (sub.size() == 1 ? v + "_" + sub : v + "_{" + sub + "}");
        }
        std::string asciiText() const
        {
            return full(value);
        }
        std::string unicodeText() const
        {
            static const std::map<std::string, std::string> lower{{"alpha", "α"}, {"beta", "β"}, {"gamma", "γ"},
              {"delta", "δ"}, {"epsilon", "ε"}, {"zeta", "ζ"}, {"eta", "η"}, {"theta", "θ"}, {"iota", "ι"}, {"kappa", "κ"},
              {"lambda", "λ"}, {"my", "μ"}, {"ny", "ν"}, {"xi", "ξ"}, {"omikron", "ο"}, {"pi", "π"}, {"rho", "ρ"}, {"sigma", "σ"},
              {"tau", "τ"}, {"ypsilon", "υ"}, {"phi", "φ"}, {"chi", "χ"}, {"psi", "ψ"}, {"omega", "ω"}};
            static const std::map<std::string, std::string> upper{{"Alpha", "Α"}, {"Beta", "Β"}, {"Gamma", "Γ"},
              {"Delta", "Δ"}, {"Epsilon", "Ε"}, {"Zeta", "Ζ"}, {"Eta", "Η"}, {"Theta", "Θ"}, {"Iota", "Ι"}, {"Kappa", "Κ"},
              {"Lambda", "Λ"}, {"My", "Μ"}, {"Ny", "Ν"}, {"Xi", "Ξ"}, {"Omikron", "Ο"}, {"Pi", "Π"}, {"Rho", "Ρ"}, {"Sigma", "Σ"},
              {"Tau", "Τ"}, {"Ypsilon", "Υ"}, {"Phi", "Φ"}, {"Chi", "Χ"}, {"Psi", "Ψ"}, {"Omega", "Ω"}};
            const auto l = lower.find(value);
            if (l != lower.end())
                return full(l->second);
            const auto u = upper.find(value);
            return full(u != upper.end() ? u->second : value);
        }
    };
    NameModel split(const std::string& normal) /* From the normalised spelling of the reference parser. */
    {
        NameModel m;
        const size_t p = normal.find('_');
        m.value = normal.substr(0, p);
        if (p != std::string::npos)
            m.sub = normal[p + 1] == '{' ? normal.substr(p + 2, normal.size() - p - 3) : normal.substr(p + 1);
        return m;
    }
    std::string quote(const std::string& s)
    {
        std::string r = "'";
        for (const char ch : s)
            if (ch >= 32 && ch < 127)
                r += ch;
            else {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\x%02x", static_cast<unsigned char>(ch));
                r += buf;
            }
        return r + "'";
    }

    /* ---- Names ---- */
    std::string someName(Ctx& c)
    {
        static const std::vector<std::string> greek{"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta",
          "iota", "kappa", "lambda", "my", "ny", "xi", "omikron", "rho", "sigma", "tau", "ypsilon", "phi", "chi", "psi", "omega"};
        static const std::vector<std::string> special{"pix", "pi1", "eulerx", "euler2", "sin", "sinx", "log", "sqrt", "atan", "atan2", "e", "E",
          "e1", "inf", "nan", "tmp", "tmp1", "Undefined", "undefined", "x", "X", "PIa", "i", "I"};
        std::string s;
        switch (c.weighted({35, 25, 20, 20})) {
            case 0:
                s = static_cast<char>('a' + c.draw(3));
                break;
            case 1:
                s = c.pick(greek);
                if (c.chance(40))
                    s[0] = static_cast<char>(std::toupper(s[0]));
                if (c.chance(15))
                    s += static_cast<char>(c.chance(50) ? 'a' + c.draw(26) : '0' + c.draw(10));
                if (c.chance(10))
                    s[1] = static_cast<char>(std::toupper(s[1]));
                break;
            case 2:
                s = c.pick(special);
                break;
            default: {
                static const std::string al = "abcxyzABCXYZ";
                static const std::string an = "abcxyzABCXYZ0123456789";
                s = al[c.draw(static_cast<uint32_t>(al.size()))];
                for (int i = 0, n = c.range(0, 20); i < n; ++i)
                    s += an[c.draw(static_cast<uint32_t>(an.size()))];
            }
        }
        return s;
    }
    std::string withSubscript(Ctx& c, std::string s)
    {
        static const std::string an = "ab1200xAB";
        switch (c.weighted({45, 25, 30})) {
            case 0:
                break;
            case 1:
                s += "_";
                s += an[c.draw(static_cast<uint32_t>(an.size()))];
                break;
            default:
                s += "_{";
                for (int i = 0, n = c.range(1, c.chance(20) ? 12 : 3); i < n; ++i)
                    s += an[c.draw(static_cast<uint32_t>(an.size()))];
                s += "}";
        }
        return s;
    }

    /* The text lives in a buffer that is overwritten afterwards. */
    Var create(const std::string& text, bool positive)
    {
        std::string buffer = text;
        Var v = positive ? Var(std::string_view(buffer), Var::Sign::POSITIVE) : Var(std::string_view(buffer));
        for (auto& ch : buffer)
            ch = '#';
        return v;
    }

    void checkSymbol(Ctx& c, const std::string& text, const Var& v, const NameModel& m, bool positive)
    {
        const auto what = [&] { return quote(text) + (positive ? " (positive)" : "") + " gives " + dump(v); };
        ++c.checks;
        c.require(v.type() == Var::Type::SYMBOL, "type", what);
        c.require(tsym::name(v) == m.asciiText(), "name", [&] { return what() + " with name " + tsym::name(v) + ", expected " + m.asciiText(); });
        c.require(tsym::isPositive(v) == positive && !tsym::isNegative(v), "sign", what);
        c.require(ascii(v) == m.asciiText(), "ascii-text", [&] { return what() + " printed as " + ascii(v); });
        c.require(unicode(v) == m.unicodeText() && str(v) == m.unicodeText(), "unicode-text", [&] { return what() + " printed as " + unicode(v) + ", expected " + m.unicodeText(); });
        c.require(tsym::operands(v).empty(), "operands", what);
        const auto symbols = tsym::collectSymbols(v);
        c.require(symbols.size() == 1 && symbols[0] == v, "collect", what);
        c.require(create(m.asciiText(), positive) == v, "normal-form", what);
    }

    void strings(Ctx& c)
    {
        std::string s;
        switch (c.weighted({40, 30, 15, 15})) {
            case 0:
                s = withSubscript(c, someName(c));
                break;
            case 1: { /* Nearly a name. */
                s = withSubscript(c, someName(c));
                static const std::string chars = "_{}_{}abA019 -+#^.,*/()'\"\\\t~";
                for (int i = 0, n = c.range(1, 2); i < n && !s.empty(); ++i) {
                    const size_t p = c.draw(static_cast<uint32_t>(s.size()));
                    switch (c.range(0, 2)) {
                        case 0:
                            s.insert(p, 1, chars[c.draw(static_cast<uint32_t>(chars.size()))]);
                            break;
                        case 1:
                            s.erase(p, 1);
                            break;
                        default:
                            s[p] = chars[c.draw(static_cast<uint32_t>(chars.size()))];
                    }
                }
                break;
            }
            case 2:
                for (int i = 0, n = c.range(1, c.chance(20) ? 60 : 12); i < n; ++i)
                    s += static_cast<char>('0' + c.draw(10));
                if (c.chance(20))
                    s.insert(c.draw(static_cast<uint32_t>(s.size() + 1)), 1, c.pick(std::vector<char>{'-', ' ', 'a', '.', '_', 'e', '+'}));
                break;
            default:
                for (int i = 0, n = c.range(0, 6); i < n; ++i)
                    s += static_cast<char>(c.draw(256));
        }
        if (c.chance(3))
            s = " " + s + "\t";
        const bool positive = c.chance(35);
        c.input(quote(s) + (positive ? " positive" : ""));
        bool isAscii = true;
        for (const char ch : s)
            isAscii = isAscii && static_cast<unsigned char>(ch) < 128;
        Ref ref(s);
        const Ex e = isAscii ? ref.whole() : nullptr;
        if (ref.extreme || (e && !inNumericRange(e)))
            c.discard("numbers out of range");
        if (s.find('^') != std::string::npos && (!e || e->op != Op::Sym))
            c.discard("power"); /* Possibly large. */
        if (s.find('.') != std::string::npos || ref.hasDouble)
            c.discard("decimal number"); /* Is accepted if it is integral. */
        const Var v = create(s, positive);
        ++c.checks;
        if (!e) {
            c.label("malformed");
            c.require(v.type() == Var::Type::UNDEFINED, "malformed-accepted", [&] { return quote(s) + " gives " + dump(v); });
            c.nontrivial(s.size() >= 3);
            return;
        }
        if (e->op == Op::Sym) {
            c.label("symbol");
            const NameModel m = split(e->sym.name);
            checkSymbol(c, s, v, m, positive);
            c.nontrivial(m.value.size() > 1 || !m.sub.empty());
        } else if (e->op == Op::Int) {
            c.label("integer");
            c.require(v.type() == Var::Type::INT && exactOf(v) == BigRat(e->num), "integer", [&] { return quote(s) + " gives " + dump(v); });
            c.nontrivial(s.size() >= 2);
        } else if (e->op == Op::Pi || e->op == Op::E) {
            c.label("constant");
            c.require(v.type() == Var::Type::UNDEFINED, "constant-accepted", [&] { return quote(s) + " gives " + dump(v); });
        } else {
            c.label("expression");
            const auto t = v.type();
            c.require(t == Var::Type::UNDEFINED || t == Var::Type::SYMBOL || t == Var::Type::INT, "composite", [&] { return quote(s) + " gives " + dump(v); });
            const Var b = build(e);
            const auto bt = b.type();
            const bool scalar = bt == Var::Type::SYMBOL || bt == Var::Type::INT;
            c.require(scalar == (t != Var::Type::UNDEFINED), "expression", [&] { return quote(s) + " gives " + dump(v) + " from " + dump(b); });
        }
    }

    struct S {
        std::string text;
        NameModel m;
        bool positive;
        Var v;
    };
    S makeSymbol(Ctx& c, const S* like)
    {
        S s;
        if (like && c.chance(75)) { /* Same or nearly the same. */
            std::string name = like->m.value, sub = like->m.sub;
            switch (c.weighted({30, 15, 15, 15, 10, 15})) {
                case 0:
                    break;
                case 1:
                    if (!sub.empty())
                        sub[c.draw(static_cast<uint32_t>(sub.size()))] = c.chance(50) ? 'q' : '7';
                    else
                        sub = "1";
                    break;
                case 2:
                    name[0] = static_cast<char>(std::isupper(name[0]) ? std::tolower(name[0]) : std::toupper(name[0]));
                    break;
                case 3: /* Shift characters between name and subscript. */
                    if (name.size() > 1) {
                        sub = name.back() + sub;
                        name.pop_back();
                    } else if (!sub.empty()) {
                        name += sub[0];
                        sub.erase(0, 1);
                    }
                    break;
                case 4:
                    sub.clear();
                    break;
                default:
                    name += c.chance(50) ? 'z' : '1';
            }
            s.positive = c.chance(40) ? !like->positive : like->positive;
            s.text = sub.empty() ? name : (sub.size() == 1 && c.chance(50) ? name + "_" + sub : name + "_{" + sub + "}");
        } else {
            s.text = withSubscript(c, someName(c));
            s.positive = c.chance(40);
        }
        Ref ref(s.text);
        const Ex e = ref.whole();
        if (!e || e->op != Op::Sym)
            c.discard("constant");
        s.m = split(e->sym.name);
        s.v = create(s.text, s.positive);
        return s;
    }

    void pairs(Ctx& c)
    {
        std::vector<S> s;
        s.push_back(makeSymbol(c, nullptr));
        for (int i = 0, n = c.range(1, 4); i < n; ++i)
            s.push_back(makeSymbol(c, &s[c.draw(static_cast<uint32_t>(s.size()))]));
        for (const auto& x : s)
            c.input(quote(x.text) + (x.positive ? "+" : ""));
        std::unordered_set<Var> set;
        std::unordered_map<std::string, unsigned> distinct;
        Var sum, product(1);
        bool nearMiss = false;
        for (const auto& x : s) {
            checkSymbol(c, x.text, x.v, x.m, x.positive);
            set.insert(x.v);
            ++distinct[x.m.asciiText() + (x.positive ? "+" : "-")];
            sum += x.v;
            product *= x.v;
        }
        const auto all = [&] {
            std::string r;
            for (const auto& x : s)
                r += quote(x.text) + (x.positive ? "+ " : " ");
            return r;
        };
        c.require(set.size() == distinct.size(), "hash-set", [&] { return all() + ": " + std::to_string(set.size()) + " different elements"; });
        c.require(tsym::collectSymbols(sum).size() == distinct.size(), "sum-symbols", [&] { return all() + ": " + dump(sum); });
        c.require(tsym::collectSymbols(product).size() == distinct.size(), "product-symbols", [&] { return all() + ": " + dump(product); });
        /* Another order gives the same objects. */
        Var sum2, product2(1);
        for (size_t i = s.size(); i-- > 0;) {
            sum2 = s[i].v + sum2;
            product2 = s[i].v * product2;
        }
        c.require(sum == sum2 && product == product2, "order", [&] { return all() + ": " + dump(sum) + " and " + dump(sum2); });
        if (sum.type() == Var::Type::SUM)
            c.require(tsym::operands(sum).size() == distinct.size(), "summands", [&] { return all() + ": " + dump(sum); });
        else
            c.require(distinct.size() == 1, "merged", [&] { return all() + ": " + dump(sum); });
        for (const auto& x : s)
            for (const auto& y : s) {
                const bool same = x.m == y.m && x.positive == y.positive;
                nearMiss = nearMiss || (!same && (x.m.value == y.m.value || x.m.sub == y.m.sub));
                const auto what = [&] { return all() + ": " + quote(x.text) + " and " + quote(y.text); };
                ++c.checks;
                c.require((x.v == y.v) == same && (x.v != y.v) == !same, "equality", what);
                if (same)
                    c.require(std::hash<Var>{}(x.v) == std::hash<Var>{}(y.v), "hash", what);
                c.require((x.v - y.v == 0) == same, "difference", what);
                c.require((x.v / y.v == 1) == same, "quotient", what);
                c.require(tsym::diff(x.v, y.v) == (same ? 1 : 0), "diff", what);
                c.require(tsym::subst(x.v, y.v, Var(7)) == (same ? Var(7) : x.v), "subst", what);
                c.require(tsym::has(x.v, y.v) == same, "has", what);
                unsigned n = 0;
                for (const auto& z : s)
                    n += z.m == y.m && z.positive == y.positive;
                c.require(tsym::diff(sum, y.v) == static_cast<int>(n), "sum-diff", what);
                c.require((x.v + y.v == y.v + x.v) && (x.v * y.v == y.v * x.v), "commutativity", what);
            }
        c.nontrivial(nearMiss || distinct.size() < s.size());
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C14";
    p.rule = "strings: longer than a single letter or digit; pairs: equal symbols with different spelling or handle, or different symbols "
             "that agree in name, subscript or sign";
    p.beforeCase = resetLibrary;
    p.assumptions = {"strings with powers or decimal points are left to C09"};
    p.suites.push_back({"strings", 120000, 4000000, strings});
    p.suites.push_back({"pairs", 60000, 2000000, pairs});
    return p;
}
