#include "expr.h"
#include <algorithm>
#include <cmath>
#include <functional>
#include <iomanip>
#include <limits>
#include "cache.h"
#include "tsym/logger.h"

namespace vf {
    namespace {
        using tsym::Var;

        const Mp U("1e-54");

        const char* opName(Op op)
        {
            switch (op) {
                case Op::Sqrt:
                    return "sqrt";
                case Op::Log:
                    return "log";
                case Op::Sin:
                    return "sin";
                case Op::Cos:
                    return "cos";
                case Op::Tan:
                    return "tan";
                case Op::Asin:
                    return "asin";
                case Op::Acos:
                    return "acos";
                case Op::Atan:
                    return "atan";
                case Op::Atan2:
                    return "atan2";
                case Op::Pow:
                    return "pow";
                default:
                    return "?";
            }
        }

        Mp absMp(const Mp& x)
        {
            return x < 0 ? Mp(-x) : x;
        }
    }

    Ex mkInt(const BigInt& n)
    {
        auto r = std::make_shared<Node>();
        r->op = Op::Int;
        r->num = n;
        return r;
    }

    Ex mkFrac(const BigInt& n, const BigInt& d)
    {
        auto r = std::make_shared<Node>();
        r->op = Op::Frac;
        r->num = n;
        r->den = d;
        return r;
    }

    Ex mkDbl(double d)
    {
        auto r = std::make_shared<Node>();
        r->op = Op::Dbl;
        r->dbl = d;
        return r;
    }

    Ex mkSym(const SymInfo& s)
    {
        auto r = std::make_shared<Node>();
        r->op = Op::Sym;
        r->sym = s;
        return r;
    }

    Ex mk(Op op, std::vector<Ex> args)
    {
        auto r = std::make_shared<Node>();
        r->op = op;
        r->args = std::move(args);
        return r;
    }

    std::string show(const Ex& e)
    {
        std::ostringstream s;
        const auto join = [&](const char* sep) {
            s << "(";
            for (size_t i = 0; i < e->args.size(); ++i)
                s << (i ? sep : "") << show(e->args[i]);
            s << ")";
        };
        switch (e->op) {
            case Op::Int:
                s << e->num;
                break;
            case Op::Frac:
                s << "(" << e->num << "/" << e->den << ")";
                break;
            case Op::Dbl:
                s << "dbl(" << std::setprecision(17) << e->dbl << ")";
                break;
            case Op::Sym:
                s << e->sym.name << (e->sym.positive ? "'" : "");
                break;
            case Op::Pi:
                s << "pi";
                break;
            case Op::E:
                s << "euler";
                break;
            case Op::Add:
                join(" + ");
                break;
            case Op::Sub:
                join(" - ");
                break;
            case Op::Neg:
                s << "-" << show(e->args[0]);
                break;
            case Op::Mul:
                join("*");
                break;
            case Op::Div:
                join("/");
                break;
            default:
                s << opName(e->op);
                join(", ");
        }
        return s.str();
    }

    unsigned countNodes(const Ex& e)
    {
        unsigned n = 1;
        for (const auto& a : e->args)
            n += countNodes(a);
        return n;
    }

    unsigned depthOf(const Ex& e)
    {
        unsigned n = 0;
        for (const auto& a : e->args)
            n = std::max(n, depthOf(a));
        return n + 1;
    }

    bool contains(const Ex& e, Op op)
    {
        if (e->op == op)
            return true;
        for (const auto& a : e->args)
            if (contains(a, op))
                return true;
        return false;
    }

    void symbolsOf(const Ex& e, std::map<std::string, bool>& result)
    {
        if (e->op == Op::Sym)
            result[e->sym.name + (e->sym.positive ? "+" : "")] = e->sym.positive;
        for (const auto& a : e->args)
            symbolsOf(a, result);
    }

    double estTerms(const Ex& e)
    {
        double n = 0;
        switch (e->op) {
            case Op::Add:
            case Op::Sub:
                for (const auto& a : e->args)
                    n += estTerms(a);
                return n;
            case Op::Neg:
                return estTerms(e->args[0]);
            case Op::Mul:
            case Op::Div:
                n = 1;
                for (const auto& a : e->args)
                    n *= estTerms(a);
                return n;
            case Op::Pow: {
                n = estTerms(e->args[0]);
                const double m = std::max(1.0, estTerms(e->args[1]));
                if (n <= 1)
                    return m;
                double k = 2;
                if (e->args[1]->op == Op::Int)
                    k = std::min(50.0, std::abs(e->args[1]->num.convert_to<double>()));
                double r = 1;
                for (double i = 1; i <= k; ++i)
                    r = r * (n + i - 1) / i;
                return r * m;
            }
            case Op::Int:
            case Op::Frac:
            case Op::Dbl:
            case Op::Sym:
            case Op::Pi:
            case Op::E:
                return 1;
            default:
                n = 1;
                for (const auto& a : e->args)
                    n = std::max(n, estTerms(a));
                return n;
        }
    }

    Var bigVar(const BigInt& n)
    {
        if (n >= std::numeric_limits<int>::min() && n <= std::numeric_limits<int>::max())
            return Var(n.convert_to<int>());
        else if (n < 0)
            return -Var(BigInt(-n).str());
        else
            return Var(n.str());
    }

    Var ratVar(const BigInt& n, const BigInt& d)
    {
        const auto fits = [](const BigInt& x) {
            return x > std::numeric_limits<int>::min() && x <= std::numeric_limits<int>::max();
        };
        if (fits(n) && fits(d))
            return Var(n.convert_to<int>(), d.convert_to<int>());
        return bigVar(n) / bigVar(d);
    }

    Var symVar(const SymInfo& s)
    {
        return s.positive ? Var(s.name, Var::Sign::POSITIVE) : Var(s.name);
    }

    namespace {
        void guardPower(const Var& base, const Var& exp)
        /* Bounds the size of numeric powers, so that no case needs unreasonable resources. */
        {
            if (exp.type() != Var::Type::INT && exp.type() != Var::Type::FRACTION)
                return;
            const BigRat e = exactOf(exp);
            const BigInt n = abs(numerator(e)), d = denominator(e);
            if (n > 200 || d > 200)
                throw Discard{"exponent too large"};
            if (sizeOf(base) * n.convert_to<double>() > 400 && base.type() != Var::Type::SYMBOL)
                throw Discard{"power too large"};
            if (str(base).size() * n.convert_to<double>() > 4000)
                throw Discard{"power too large"};
        }
    }

    Var build(const Ex& e, const BuildOpts& o)
    {
        const auto arg = [&](size_t i) { return build(e->args[i], o); };
        switch (e->op) {
            case Op::Int:
                return bigVar(e->num);
            case Op::Frac:
                return ratVar(e->num, e->den);
            case Op::Dbl:
                return Var(e->dbl);
            case Op::Sym:
                return symVar(e->sym);
            case Op::Pi:
                return tsym::pi();
            case Op::E:
                return tsym::euler();
            case Op::Add: {
                Var r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r += arg(i);
                return r;
            }
            case Op::Sub: {
                Var r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r -= arg(i);
                return r;
            }
            case Op::Neg:
                return -arg(0);
            case Op::Mul: {
                Var r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r *= arg(i);
                return r;
            }
            case Op::Div: {
                Var r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r /= arg(i);
                return r;
            }
            case Op::Pow: {
                const Var b = arg(0), x = arg(1);
                guardPower(b, x);
                return tsym::pow(b, x);
            }
            case Op::Sqrt:
                return tsym::sqrt(arg(0));
            case Op::Log:
                return tsym::log(arg(0));
            case Op::Sin:
                return tsym::sin(arg(0));
            case Op::Cos:
                return tsym::cos(arg(0));
            case Op::Tan:
                return tsym::tan(arg(0));
            case Op::Asin:
                return tsym::asin(arg(0));
            case Op::Acos:
                return tsym::acos(arg(0));
            case Op::Atan:
                return tsym::atan(arg(0));
            case Op::Atan2: {
                const Var y = arg(0), x = arg(1);
                if (o.noNumericAtan2 && tsym::collectSymbols(y).empty() && tsym::collectSymbols(x).empty())
                    throw Discard{"numeric atan2"};
                return tsym::atan2(y, x);
            }
        }
        throw std::logic_error("unknown operation");
    }

    Val Val::make(const Mp& v, const Mp& e)
    {
        static const Mp huge("1e150");
        const Mp a = absMp(v);
        if (!(a < huge) || !(e < huge))
            return ambig();
        Val r;
        r.v = v;
        /* Floating point operands: the library turns intermediate results close to zero (or to a short decimal) into
         * exact numbers with a tolerance of one double epsilon. */
        r.e = e > Mp("1e-40") ? Mp(e + Mp("1e-13")) : e;
        r.st = e > Mp("1e-3") * (a > 1 ? a : Mp(1)) ? St::AMBIG : St::OK;
        return r;
    }

    namespace {
        Mp unit(const Val& a, const Val& b)
        /* Rounding unit, that of a double (with some margin) if a double is involved. */
        {
            static const Mp coarse("1e-14");
            return a.e + b.e > Mp("1e-40") ? coarse : U;
        }
    }

    Val vAdd(const Val& a, const Val& b)
    {
        if (a.st == Val::St::UNDEF || b.st == Val::St::UNDEF)
            return Val::undef();
        if (!a.ok() || !b.ok())
            return Val::ambig();
        if (a.v == 0 && a.e == 0)
            return b;
        if (b.v == 0 && b.e == 0)
            return a;
        const Mp v = a.v + b.v;
        return Val::make(v, a.e + b.e + unit(a, b) * (absMp(a.v) + absMp(b.v)));
    }

    Val vNeg(const Val& a)
    {
        Val r = a;
        r.v = -r.v;
        return r;
    }

    Val vMul(const Val& a, const Val& b)
    {
        if (a.st == Val::St::UNDEF || b.st == Val::St::UNDEF)
            return Val::undef();
        if (!a.ok() || !b.ok())
            return Val::ambig();
        if ((a.v == 0 && a.e == 0) || (b.v == 0 && b.e == 0))
            return Val::exact(0);
        const Mp v = a.v * b.v;
        return Val::make(v, absMp(a.v) * b.e + absMp(b.v) * a.e + a.e * b.e + unit(a, b) * absMp(v));
    }

    Val vDiv(const Val& a, const Val& b)
    {
        if (a.st == Val::St::UNDEF || b.st == Val::St::UNDEF)
            return Val::undef();
        if (!a.ok() || !b.ok())
            return Val::ambig();
        if (b.v == 0 && b.e == 0)
            return Val::undef();
        const Mp low = absMp(b.v) - b.e;
        if (low <= b.e)
            return Val::ambig();
        if (a.v == 0 && a.e == 0)
            return a;
        const Mp v = a.v / b.v;
        return Val::make(v, (a.e + absMp(v) * b.e) / low + U * absMp(v));
    }

    Val vPow(const Val& a, const Val& b)
    {
        if (a.st == Val::St::UNDEF || b.st == Val::St::UNDEF)
            return Val::undef();
        if (!a.ok() || !b.ok())
            return Val::ambig();
        const Mp r = round(b.v);
        const bool isInt = absMp(b.v - r) <= b.e + Mp("1e-45");
        if (a.v == 0 && a.e == 0) {
            if (isInt && r == 0)
                return b.e == 0 ? Val::exact(1) : Val::ambig();
            if (absMp(b.v) <= b.e)
                return Val::ambig();
            return b.v > 0 ? Val::exact(0) : Val::undef();
        }
        if (absMp(a.v) <= 2 * a.e)
            return Val::ambig();
        const Mp low = absMp(a.v) - a.e;
        if (isInt && absMp(r) <= 100000) {
            const long n = r.convert_to<long>();
            if (n == 0 && b.e == 0)
                return Val::exact(1);
            if (n == 0 && a.v < 0)
                /* A tiny exponent can't be told from zero. */
                return Val::ambig();
            const Mp mag = absMp(a.v);
            if (absMp(log(mag) * n) > 350)
                return Val::ambig();
            Mp v = pow(mag, n < 0 ? -n : n);
            if (n < 0)
                v = 1 / v;
            if (a.v < 0 && (n % 2 != 0))
                v = -v;
            const Mp rel = absMp(r) * a.e / low + absMp(log(mag)) * (b.e + absMp(b.v - r)) + U * (absMp(r) + 1);
            if (rel > Mp("1e-4"))
                return Val::ambig();
            return Val::make(v, absMp(v) * 2 * rel);
        }
        if (a.v < 0)
            return Val::undef();
        const Mp l = log(a.v);
        const Mp x = b.v * l;
        if (absMp(x) > 350)
            return Val::ambig();
        const Mp v = exp(x);
        const Mp rel = absMp(b.v) * a.e / low + absMp(l) * b.e + b.e * a.e / low + U * (absMp(x) + 2);
        if (rel > Mp("1e-4"))
            return Val::ambig();
        return Val::make(v, absMp(v) * 2 * rel);
    }

    Val vFct(Op op, const Val& a)
    {
        if (!a.ok())
            return a;
        switch (op) {
            case Op::Sqrt:
                return vPow(a, Val::exact(Mp(0.5)));
            case Op::Log: {
                if (a.v == 0 && a.e == 0)
                    return Val::undef();
                if (absMp(a.v) <= 2 * a.e)
                    return Val::ambig();
                if (a.v < 0)
                    return Val::undef();
                if (a.v < Mp("1e-9"))
                    /* Can't be told from zero in double precision, which is how the library decides. */
                    return Val::ambig();
                const Mp v = log(a.v);
                return Val::make(v, a.e / (a.v - a.e) + U * (absMp(v) + 1));
            }
            case Op::Sin:
            case Op::Cos: {
                if (absMp(a.v) > 1e6)
                    return Val::ambig();
                const Mp v = op == Op::Sin ? sin(a.v) : cos(a.v);
                if (a.v == 0 && a.e == 0)
                    return Val::exact(op == Op::Sin ? 0 : 1);
                return Val::make(v, a.e + U * (absMp(a.v) + 1));
            }
            case Op::Tan: {
                if (absMp(a.v) > 1e6)
                    return Val::ambig();
                if (a.v == 0 && a.e == 0)
                    return a;
                const Mp s = sin(a.v), c = cos(a.v);
                const Mp ce = a.e + U * (absMp(a.v) + 1);
                if (absMp(c) <= 1000 * ce)
                    return Val::ambig();
                const Mp v = s / c;
                return Val::make(v, 2 * ce * (1 + v * v));
            }
            case Op::Asin:
            case Op::Acos: {
                const Mp m = absMp(a.v);
                if (a.e == 0 && m == 1) {
                    const Mp half = vPi().v / 2;
                    if (op == Op::Asin)
                        return Val::make(a.v * half, U * 2);
                    return Val::make(a.v > 0 ? Mp(0) : Mp(2 * half), a.v > 0 ? Mp(0) : Mp(U * 4));
                }
                if (m - a.e > 1)
                    return Val::undef();
                const Mp gap = 1 - m - a.e;
                if (gap <= 4 * a.e)
                    return Val::ambig();
                const Mp v = op == Op::Asin ? asin(a.v) : acos(a.v);
                return Val::make(v, a.e / sqrt(gap * (1 + m)) + U * 4 + U * m / sqrt(gap));
            }
            case Op::Atan: {
                if (a.v == 0 && a.e == 0)
                    return a;
                return Val::make(atan(a.v), a.e + U * 2);
            }
            default:
                return Val::ambig();
        }
    }

    Val vAtan2(const Val& y, const Val& x)
    {
        if (y.st == Val::St::UNDEF || x.st == Val::St::UNDEF)
            return Val::undef();
        if (!y.ok() || !x.ok())
            return Val::ambig();
        if (y.v == 0 && y.e == 0 && x.v == 0 && x.e == 0)
            return Val::undef();
        const Mp r = sqrt(x.v * x.v + y.v * y.v);
        if (r <= 4 * (x.e + y.e))
            return Val::ambig();
        if (x.v <= 0 && absMp(y.v) <= 4 * y.e)
            return Val::ambig(); /* On the branch cut. */
        return Val::make(atan2(y.v, x.v), 2 * (x.e + y.e) / r + U * 4);
    }

    Val vPi()
    {
        static const Mp pi = boost::math::constants::pi<Mp>();
        return Val::make(pi, U * 4);
    }

    Val vE()
    {
        static const Mp e = exp(Mp(1));
        return Val::make(e, U * 4);
    }

    Val vRat(const BigInt& n, const BigInt& d)
    {
        const Mp v = Mp(n) / Mp(d);
        const bool ex = d == 1 && abs(n) < BigInt("100000000000000000000000000000000000000000000000000");
        if (ex)
            return Val::exact(v);
        return Val::make(v, absMp(v) * U);
    }

    Val vDouble(double d)
    {
        if (!std::isfinite(d))
            return Val::ambig();
        const Mp v(d);
        return Val::make(v, Mp("2e-13") * (absMp(v) > 1 ? absMp(v) : Mp(1)));
    }

    Val eval(const Ex& e, const Env& env)
    {
        const auto arg = [&](size_t i) { return eval(e->args[i], env); };
        switch (e->op) {
            case Op::Int:
                return vRat(e->num, 1);
            case Op::Frac:
                return vRat(e->num, e->den);
            case Op::Dbl:
                return vDouble(e->dbl);
            case Op::Sym: {
                /* Positive symbols have a trailing plus sign; an assignment that doesn't distinguish them will do, too. */
                auto it = env.find(e->sym.name + (e->sym.positive ? "+" : ""));
                if (it == env.end())
                    it = env.find(e->sym.name + (e->sym.positive ? "" : "+"));
                return it != env.end() ? it->second : env.at(e->sym.name);
            }
            case Op::Pi:
                return vPi();
            case Op::E:
                return vE();
            case Op::Add: {
                Val r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r = vAdd(r, arg(i));
                return r;
            }
            case Op::Sub: {
                Val r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r = vAdd(r, vNeg(arg(i)));
                return r;
            }
            case Op::Neg:
                return vNeg(arg(0));
            case Op::Mul: {
                Val r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r = vMul(r, arg(i));
                return r;
            }
            case Op::Div: {
                Val r = arg(0);
                for (size_t i = 1; i < e->args.size(); ++i)
                    r = vDiv(r, arg(i));
                return r;
            }
            case Op::Pow:
                return vPow(arg(0), arg(1));
            case Op::Atan2:
                return vAtan2(arg(0), arg(1));
            default:
                return vFct(e->op, arg(0));
        }
    }

    std::string str(const Var& v)
    {
        std::ostringstream s;
        s << v;
        return s.str();
    }

    const char* typeName(Var::Type t)
    {
        switch (t) {
            case Var::Type::SYMBOL:
                return "SYMBOL";
            case Var::Type::INT:
                return "INT";
            case Var::Type::FRACTION:
                return "FRACTION";
            case Var::Type::DOUBLE:
                return "DOUBLE";
            case Var::Type::CONSTANT:
                return "CONSTANT";
            case Var::Type::UNDEFINED:
                return "UNDEFINED";
            case Var::Type::FUNCTION:
                return "FUNCTION";
            case Var::Type::SUM:
                return "SUM";
            case Var::Type::PRODUCT:
                return "PRODUCT";
            case Var::Type::POWER:
                return "POWER";
        }
        return "?";
    }

    BigRat exactOf(const Var& v)
    {
        const std::string s = str(v);
        const auto slash = s.find('/');
        if (s.empty() || s.find_first_not_of("-0123456789/") != std::string::npos)
            throw Fail{"number-format", "cannot read the number '" + s + "'", ""};
        if (slash == std::string::npos)
            return BigRat(BigInt(s));
        return BigRat(BigInt(s.substr(0, slash)), BigInt(s.substr(slash + 1)));
    }

    bool hasUndeterminedRoot(const Var& v)
    {
        const auto ops = tsym::operands(v);
        if (v.type() == Var::Type::POWER && ops[1].type() != Var::Type::INT && ops[0].type() != Var::Type::INT &&
          ops[0].type() != Var::Type::FRACTION && ops[0].type() != Var::Type::CONSTANT &&
          (!tsym::isPositive(ops[0]) || ops[0].type() == Var::Type::PRODUCT ||
            (ops[0].type() == Var::Type::POWER && !tsym::isPositive(tsym::operands(ops[0])[0]))))
            return true;
        for (const auto& o : ops)
            if (hasUndeterminedRoot(o))
                return true;
        return false;
    }

    unsigned sizeOf(const Var& v)
    {
        unsigned n = 1;
        for (const auto& o : tsym::operands(v))
            n += sizeOf(o);
        return n;
    }

    std::string dump(const Var& v)
    {
        std::ostringstream s;
        switch (v.type()) {
            case Var::Type::INT:
            case Var::Type::FRACTION:
                s << v;
                break;
            case Var::Type::DOUBLE:
                s << "dbl:" << std::setprecision(12) << static_cast<double>(v);
                break;
            case Var::Type::SYMBOL:
                s << tsym::name(v) << (tsym::isPositive(v) ? "'" : "");
                break;
            case Var::Type::UNDEFINED:
                s << "UNDEF";
                break;
            case Var::Type::CONSTANT:
                s << "const:" << tsym::name(v);
                break;
            default:
                s << (v.type() == Var::Type::FUNCTION ? tsym::name(v) : std::string(typeName(v.type()))) << "[";
                bool first = true;
                for (const auto& o : tsym::operands(v)) {
                    s << (first ? "" : ", ") << dump(o);
                    first = false;
                }
                s << "]";
        }
        return s.str();
    }

    Val evalVar(const Var& v, const Env& env)
    {
        switch (v.type()) {
            case Var::Type::INT:
            case Var::Type::FRACTION: {
                const BigRat r = exactOf(v);
                return vRat(numerator(r), denominator(r));
            }
            case Var::Type::DOUBLE:
                return vDouble(static_cast<double>(v));
            case Var::Type::UNDEFINED:
                return Val::undef();
            case Var::Type::SYMBOL: {
                auto it = env.find(symbolKey(v));
                if (it == env.end())
                    it = env.find(tsym::name(v) + (tsym::isPositive(v) ? "" : "+"));
                if (it == env.end())
                    throw Fail{"foreign-symbol", "the result contains the unknown symbol " + tsym::name(v), ""};
                return it->second;
            }
            case Var::Type::CONSTANT: {
                const std::string n = tsym::name(v);
                if (n == "pi")
                    return vPi();
                else if (n == "e")
                    return vE();
                throw Fail{"constant-name", "unknown constant " + n, ""};
            }
            default:
                break;
        }
        const std::vector<Var> ops = tsym::operands(v);
        std::vector<Val> vals;
        for (const auto& o : ops)
            vals.push_back(evalVar(o, env));
        const auto arity = [&](size_t n) {
            if (vals.size() != n)
                throw Fail{"arity", "wrong number of operands in " + str(v), ""};
        };
        switch (v.type()) {
            case Var::Type::SUM: {
                Val r = Val::exact(0);
                for (const auto& x : vals)
                    r = vAdd(r, x);
                return r;
            }
            case Var::Type::PRODUCT: {
                Val r = Val::exact(1);
                for (const auto& x : vals)
                    r = vMul(r, x);
                return r;
            }
            case Var::Type::POWER:
                arity(2);
                return vPow(vals[0], vals[1]);
            default: {
                static const std::map<std::string, Op> fcts{{"sin", Op::Sin}, {"cos", Op::Cos}, {"tan", Op::Tan},
                  {"asin", Op::Asin}, {"acos", Op::Acos}, {"atan", Op::Atan}, {"log", Op::Log}};
                const std::string n = tsym::name(v);
                if (n == "atan2") {
                    arity(2);
                    return vAtan2(vals[0], vals[1]);
                }
                const auto it = fcts.find(n);
                if (it == fcts.end())
                    throw Fail{"function-name", "unknown function " + n, ""};
                arity(1);
                return vFct(it->second, vals[0]);
            }
        }
    }

    Cmp compare(const Val& a, const Val& b)
    {
        if (!a.ok() || !b.ok())
            return Cmp::SKIP;
        const Mp diff = absMp(a.v - b.v);
        const Mp m = absMp(a.v) + absMp(b.v);
        return diff > 16 * (a.e + b.e) + Mp("1e-50") * m ? Cmp::DIFFERENT : Cmp::EQUAL;
    }

    std::string show(const Val& v)
    {
        if (v.st == Val::St::UNDEF)
            return "undefined";
        else if (v.st == Val::St::AMBIG)
            return "(no verdict)";
        std::ostringstream s;
        s << std::setprecision(25) << v.v << " +- " << std::setprecision(3) << v.e;
        return s.str();
    }

    namespace {
        struct QuietLogger : public tsym::Logger {
            void debug(const Message&) const override {}
            void info(const Message&) const override {}
            void warning(const Message&) const override {}
            void error(const Message&) const override {}
            void critical(const Message&) const override {}
        };
    }

    void silenceLogger()
    {
        tsym::Logger::setInstance(std::make_unique<const QuietLogger>());
    }

    void resetLibrary()
    {
        static bool once = [] {
            silenceLogger();
            return true;
        }();
        (void) once;
        tsym::clearRegisteredCaches();
    }

    std::string otherName(const std::string& name, const std::string& suffix)
    {
        return name.find('_') == std::string::npos ? name + suffix : name.substr(0, name.find('_')) + "_9";
    }

    bool hasSymbolicExponent(const Ex& e)
    {
        if (e->op == Op::Pow) {
            std::map<std::string, bool> s;
            symbolsOf(e->args[1], s);
            if (!s.empty())
                return true;
        }
        for (const auto& a : e->args)
            if (hasSymbolicExponent(a))
                return true;
        return false;
    }

    double magnitudeRisk(const Ex& e, double factor)
    {
        if (e->op == Op::Pi || e->op == Op::E)
            return factor * 0.5;
        if (e->op == Op::Dbl)
            return factor * (std::abs(std::log10(std::abs(e->dbl))) + 0.05);
        if (e->op == Op::Int || e->op == Op::Frac) {
            const double x = e->num == 0 ? 1.0 : std::abs(e->num.convert_to<double>()) / e->den.convert_to<double>();
            return factor * std::abs(std::log10(x));
        }
        double sum = 0;
        if (e->op == Op::Pow) {
            const Ex& x = e->args[1];
            double f = 4;
            if (x->op == Op::Int)
                f = std::max(1.0, std::abs(x->num.convert_to<double>()));
            else if (x->op == Op::Frac)
                f = std::max(1.0, std::abs(x->num.convert_to<double>() / x->den.convert_to<double>()));
            return magnitudeRisk(e->args[0], factor * f) + 4 * magnitudeRisk(x, factor);
        }
        for (const auto& a : e->args)
            sum += magnitudeRisk(a, factor);
        return sum;
    }

    double doubleRisk(const Ex& e)
    {
        return contains(e, Op::Dbl) ? magnitudeRisk(e, 1.0) : 0;
    }

    bool inNumericRange(const Ex& e)
    {
        /* Symbol-free parts are (also) compared by means of doubles inside of the library, with an absolute tolerance
         * of about 1e-14, and trigonometric arguments are shifted by 2*pi step by step. */
        std::map<std::string, bool> s;
        symbolsOf(e, s);
        if (s.empty() && !e->args.empty()) {
            const Val v = eval(e, {});
            if (v.ok() && v.v != 0 && (absMp(v.v) > v.e || contains(e, Op::Dbl)) && absMp(v.v) < Mp("1e-9"))
                return false;
            if (v.ok() && absMp(v.v) > 1e12 && !isExactExpr(e))
                return false;
            if (v.ok() && !isExactExpr(e)) {
                /* Indistinguishable from an integer. */
                const Mp d = absMp(v.v - boost::multiprecision::round(v.v));
                if (d > v.e + Mp("1e-30") && d < Mp("1e-11"))
                    return false;
            }
            if (v.st == Val::St::AMBIG && contains(e, Op::Dbl))
                return false;
            if (v.st == Val::St::AMBIG && e->op == Op::Pow && !isExactExpr(e) && eval(e->args[0], {}).ok())
                return false;
            if (e->op == Op::Atan2) {
                const Val q = vDiv(eval(e->args[0], {}), eval(e->args[1], {}));
                if (q.ok() && q.v != 0 && (absMp(q.v) < Mp("1e-9") || absMp(q.v) > 1e12))
                    return false;
            }
            const bool trig = e->op == Op::Sin || e->op == Op::Cos || e->op == Op::Tan;
            if (trig) {
                const Val a = eval(e->args[0], {});
                if (a.ok() && absMp(a.v) > 300)
                    return false;
            }
        }
        for (const auto& a : e->args)
            if (!inNumericRange(a))
                return false;
        return true;
    }

    bool isExactExpr(const Ex& e)
    {
        switch (e->op) {
            case Op::Int:
            case Op::Frac:
                return true;
            case Op::Add:
            case Op::Sub:
            case Op::Neg:
            case Op::Mul:
            case Op::Div:
                break;
            case Op::Pow:
                if (e->args[1]->op != Op::Int)
                    return false;
                break;
            default:
                return false;
        }
        for (const auto& a : e->args)
            if (!isExactExpr(a))
                return false;
        return true;
    }

    std::string symbolKey(const Var& v)
    {
        return tsym::name(v) + (tsym::isPositive(v) ? "+" : "");
    }

    Env randomEnv(Ctx& c, const std::map<std::string, bool>& syms, bool allowInt)
    {
        static const std::vector<int> dens{1009, 1013, 1019, 1021, 1031, 1033, 1039, 1049};
        Env env;
        size_t k = 0;
        for (const auto& [name, positive] : syms) {
            const int den = dens[k++ % dens.size()];
            BigInt n, d = 1;
            switch (c.weighted({45, 40, allowInt ? 15u : 0u})) {
                case 0:
                    n = c.range(31, 970);
                    d = den;
                    break;
                case 1:
                    n = c.range(1060, 4200);
                    d = den;
                    break;
                default:
                    n = c.range(1, 5);
            }
            if (!positive && c.chance(45))
                n = -n;
            env[name] = vRat(n, d);
        }
        return env;
    }

    std::string show(const Env& env)
    {
        std::ostringstream s;
        s << "{";
        for (const auto& [k, v] : env)
            s << " " << k << "=" << std::setprecision(12) << v.v;
        s << " }";
        return s.str();
    }

    namespace {
        bool isPowerOfNegative(const Var& v, const Env& env)
        {
            if (v.type() != Var::Type::POWER)
                return false;
            const Var base = tsym::operands(v).front();
            const Val b = evalVar(base, env);
            return (b.ok() && b.v < 0) || isPowerOfNegative(base, env);
        }
        /* The logarithm of an even power with undetermined sign is restricted to a positive base, log(a^2) = 2*log(a),
         * but e^(2*log(a)) is a^2 nevertheless. */
        bool isLogOfNegativePower(const Ex& e, const Env& env)
        {
            if (e->op == Op::Log && isPowerOfNegative(build(e->args[0]), env))
                return true;
            for (const auto& a : e->args)
                if (isLogOfNegativePower(a, env))
                    return true;
            return false;
        }
    }

    unsigned checkValue(Ctx& c, const char* tag, const Ex& recipe, const Var& result, const ValueOpts& o)
    {
        std::map<std::string, bool> syms;
        symbolsOf(recipe, syms);
        unsigned verdicts = 0;
        /* log(u^v) = v*log(u) as well as algebraic rewriting of sin(acos(u)) etc. with radicals in u may restrict the
         * domain of definition. */
        const bool log = contains(recipe, Op::Log) ||
          ((contains(recipe, Op::Sqrt) || contains(recipe, Op::Pow)) &&
            (contains(recipe, Op::Asin) || contains(recipe, Op::Acos) || contains(recipe, Op::Atan) || contains(recipe, Op::Atan2)));
        /* At integer points, powers with a negative base and a symbolic exponent have an isolated value. */
        const bool allowInt = !hasSymbolicExponent(recipe);
        const bool undef = result.type() == Var::Type::UNDEFINED;

        for (unsigned i = 0; i < o.points; ++i) {
            const Env env = randomEnv(c, syms, allowInt);
            const Val want = eval(recipe, env);
            if (!want.ok()) {
                c.label(want.st == Val::St::UNDEF ? "point:recipe-undefined" : "point:no-verdict");
                if (syms.empty())
                    break;
                continue;
            }
            const Val got = evalVar(result, env);
            if (got.st == Val::St::UNDEF) {
                if ((undef && o.strictTypeUndefined) || (!log && !o.allowUndefAtPoint))
                    c.fail(std::string(tag) + "-undefined",
                      show(recipe) + " has the value " + show(want) + " at " + show(env) + ", but the result is " + dump(result) +
                        ", which is undefined there");
                c.label("point:domain-shrunk");
                continue;
            }
            const Cmp cmp = compare(want, got);
            if (cmp == Cmp::DIFFERENT && contains(recipe, Op::E) && isLogOfNegativePower(recipe, env)) {
                c.known("log-even-power", show(recipe) + " becomes " + dump(result));
                continue;
            }
            if (cmp == Cmp::DIFFERENT)
                c.fail(tag,
                  show(recipe) + " has the value " + show(want) + " at " + show(env) + ", but the result " + dump(result) +
                    " has the value " + show(got));
            if (cmp == Cmp::EQUAL) {
                ++verdicts;
                ++c.checks;
                c.label("point:verdict");
            } else
                c.label("point:no-verdict");
            if (syms.empty())
                break;
        }
        return verdicts;
    }

    static bool isNumberVar(const Var& v)
    {
        return v.type() == Var::Type::INT || v.type() == Var::Type::FRACTION || v.type() == Var::Type::DOUBLE;
    }
    static bool isNumericPowerVar(const Var& v)
    {
        return v.type() == Var::Type::POWER && isNumberVar(tsym::operands(v)[0]) && isNumberVar(tsym::operands(v)[1]);
    }

    /* Finding numeric-power-forms: products of a number and a numeric power, or of several numeric powers, have equivalent
     * forms and orders which aren't unified: 10^(4/5)*2^(-1/5) != 2^(-1/5)*10^(4/5), 1/2*28^(1/3) = (7/2)^(1/3). */
    bool hasAmbiguousNumericPowers(const Var& v)
    {
        const auto ops = tsym::operands(v);
        if (v.type() == Var::Type::PRODUCT) {
            unsigned powers = 0, numbers = 0;
            for (const auto& o : ops) {
                numbers += isNumberVar(o);
                powers += isNumericPowerVar(o);
            }
            if (powers > 1 || (powers == 1 && numbers == 1))
                return true;
        }
        for (const auto& o : ops)
            if (hasAmbiguousNumericPowers(o))
                return true;
        return false;
    }

    /* Constant sums and their powers are distributed over the other factors, unless there is more than one sum, thus it
     * depends on the sequence of multiplications: 4*(sqrt(2) - 1)*a*(1 + 2*a). */
    bool hasConstantSumFactor(const Var& v)
    {
        const auto ops = tsym::operands(v);
        if (v.type() == Var::Type::PRODUCT)
            for (const auto& o : ops)
                if ((o.type() == Var::Type::SUM || (o.type() == Var::Type::POWER && tsym::operands(o)[0].type() == Var::Type::SUM)) && tsym::collectSymbols(o).empty())
                    return true;
        for (const auto& o : ops)
            if (hasConstantSumFactor(o))
                return true;
        return false;
    }

    /* ---- Generators ---- */

    BigInt genInt(Ctx& c, int max)
    {
        /* Small values are more likely, the sign comes last, so that shrinking prefers positive ones. */
        const int cls = static_cast<int>(c.weighted({50, 30, 20}));
        int v;
        if (cls == 0)
            v = c.range(1, std::min(3, max));
        else if (cls == 1)
            v = c.range(1, std::min(9, max));
        else
            v = c.range(1, max);
        return c.chance(30) ? -v : v;
    }

    BigInt genBigInt(Ctx& c, unsigned maxDigits)
    {
        BigInt r = 0;
        switch (c.weighted({40, 20, 20, 20})) {
            case 0: {
                const unsigned n = static_cast<unsigned>(c.range(1, static_cast<int>(maxDigits)));
                r = c.range(1, 9);
                for (unsigned i = 1; i < n; ++i)
                    r = r * 10 + c.draw(10);
                break;
            }
            case 1: { /* Around powers of two. */
                const unsigned maxBits = std::min(3u * maxDigits, 520u);
                r = BigInt(1) << static_cast<unsigned>(c.pick(std::vector<unsigned>{31, 32, 63, 64, 128, 8, 16, 53, 24, 62, 30, 52, 54, 96, 127, 256, 512}) % maxBits);
                r += c.range(-2, 2);
                break;
            }
            case 2: /* Products of small primes: factorable. */
                r = 1;
                for (unsigned i = 0, n = static_cast<unsigned>(c.range(1, 12)); i < n; ++i)
                    r *= c.pick(std::vector<int>{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 97, 991, 997, 1009, 1013});
                break;
            default:
                r = c.pick(std::vector<int>{2147483647, 1, 0, 1000000, 999999937, 65536, 46341, 32768, 1000, 997, 1024});
                if (c.chance(30))
                    r = r * r;
        }
        return c.chance(40) ? BigInt(-r) : r;
    }

    std::vector<SymInfo> someSymbols(Ctx& c, unsigned n, unsigned positivePercent)
    {
        static const std::vector<std::string> names{"a", "b", "c", "d", "x", "y", "f", "g", "h", "k", "u", "w"};
        std::vector<SymInfo> r;
        for (unsigned i = 0; i < n; ++i) {
            const bool pos = c.chance(positivePercent);
            r.push_back({names[i], pos});
        }
        if (c.chance(15)) {
            /* Longer names, some of them similar. */
            static const std::vector<std::string> other{"ab", "b_1", "ab_1", "alpha", "x2_{10}", "Ab", "abc", "b", "b_2", "Alpha", "abd", "alpha_1"};
            const size_t shift = c.draw(static_cast<uint32_t>(other.size()));
            for (size_t i = 0; i < r.size(); ++i)
                r[i].name = other[(i + shift) % other.size()];
        }
        return r;
    }

    Ex genLeaf(Ctx& c, const GenCfg& g)
    {
        const unsigned wSym = g.syms.empty() ? 0 : g.wSym;
        switch (c.weighted({wSym, g.wInt, g.wFrac, g.wDbl, g.wPi, g.wE, g.wBig})) {
            case 0:
                if (g.syms.empty())
                    return mkInt(1);
                return mkSym(c.pick(g.syms));
            case 1:
                return mkInt(c.chance(4) ? BigInt(0) : genInt(c, g.maxInt));
            case 2: {
                const BigInt n = genInt(c, g.maxInt);
                return mkFrac(n, c.range(2, std::max(3, g.maxInt)));
            }
            case 3: {
                const double d = (c.range(300000, 9999999) + 0.37) / 1.0e6 * (c.chance(20) ? 100.0 : 1.0);
                return mkDbl(c.chance(30) ? -d : d);
            }
            case 4:
                return mk(Op::Pi);
            case 5:
                return mk(Op::E);
            default:
                return mkInt(genBigInt(c, 25));
        }
    }

    Ex fracExponent(Ctx& c)
    {
        const int d = c.range(2, c.chance(20) ? 12 : 5);
        int n = c.range(1, 7);
        if (c.chance(35))
            n = -n;
        return mkFrac(n, d);
    }

    namespace {
        Ex genNew(Ctx& c, const GenCfg& g, unsigned budget);

        Ex trigArg(Ctx& c, const GenCfg& g, unsigned budget)
        {
            switch (c.weighted({40, 15, 15, 15, 15})) {
                case 0:
                    return gen(c, g, budget);
                case 1: { /* Rational multiple of pi. */
                    static const std::vector<int> dens{1, 2, 3, 4, 6, 8, 12, 5, 24, 7};
                    const int n = c.range(1, 30);
                    return mk(Op::Mul, {mkFrac(c.chance(40) ? -n : n, c.pick(dens)), mk(Op::Pi)});
                }
                case 2:
                    return mk(Op::Neg, {gen(c, g, budget)});
                case 3:
                    return mk(Op::Add, {gen(c, g, budget / 2), mk(Op::Mul, {mkFrac(c.range(-6, 6), c.range(1, 6)), mk(Op::Pi)})});
                default:
                    return genLeaf(c, g);
            }
        }
    }

    Ex gen(Ctx& c, const GenCfg& g, unsigned budget)
    {
        auto& pool = *g.pool;
        if (!pool.empty() && c.chance(g.reuse)) {
            const Ex e = c.pick(pool);
            if (countNodes(e) <= budget + 2)
                return e;
        }
        const Ex e = genNew(c, g, budget);
        if (!e->args.empty() && pool.size() < 12 && countNodes(e) <= 10)
            pool.push_back(e);
        return e;
    }

    namespace {
    Ex genNew(Ctx& c, const GenCfg& g, unsigned budget)
    {
        if (budget <= 1 || c.chance(8))
            return genLeaf(c, g);

        const auto sub = [&](unsigned b) { return gen(c, g, std::max(1u, b)); };
        const auto several = [&](Op op) {
            const unsigned n = std::min(budget, static_cast<unsigned>(c.range(2, static_cast<int>(g.maxArity))));
            std::vector<Ex> args;
            for (unsigned i = 0; i < n; ++i)
                args.push_back(sub((budget - 1) / n));
            if (args.size() < 2)
                args.push_back(genLeaf(c, g));
            return mk(op, std::move(args));
        };

        switch (c.weighted({g.wAdd, g.wMul, g.wSub, g.wNeg, g.wDiv, g.wPowInt, g.wPowFrac, g.wPowSym, g.wPowAny, g.wSqrt, g.wLog,
          g.wTrig, g.wInvTrig, g.wAtan2})) {
            case 0:
                return several(Op::Add);
            case 1:
                return several(Op::Mul);
            case 2:
                return mk(Op::Sub, {sub((budget - 1) / 2), sub((budget - 1) / 2)});
            case 3:
                return mk(Op::Neg, {sub(budget - 1)});
            case 4:
                return mk(Op::Div, {sub((budget - 1) / 2), sub((budget - 1) / 2)});
            case 5: {
                int n = c.range(2, std::max(2, g.maxExp));
                if (c.chance(6))
                    n = c.range(0, 1);
                if (g.negExp && c.chance(30))
                    n = -n;
                return mk(Op::Pow, {sub(budget - 1), mkInt(n)});
            }
            case 6:
                return mk(Op::Pow, {sub(budget - 1), fracExponent(c)});
            case 7: {
                Ex s = g.syms.empty() ? mkInt(2) : mkSym(c.pick(g.syms));
                switch (c.weighted({40, 20, 20, 20})) {
                    case 1:
                        s = mk(Op::Mul, {mkInt(genInt(c, 4)), s});
                        break;
                    case 2:
                        s = mk(Op::Add, {s, mkInt(genInt(c, 3))});
                        break;
                    case 3:
                        s = mk(Op::Mul, {fracExponent(c), s});
                        break;
                    default:
                        break;
                }
                return mk(Op::Pow, {sub(budget - 1), s});
            }
            case 8:
                return mk(Op::Pow, {sub((budget - 1) / 2), sub((budget - 1) / 2)});
            case 9:
                return mk(Op::Sqrt, {sub(budget - 1)});
            case 10:
                return mk(Op::Log, {sub(budget - 1)});
            case 11: {
                const Op op = c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Tan});
                return mk(op, {trigArg(c, g, budget - 1)});
            }
            case 12: {
                const Op op = c.pick(std::vector<Op>{Op::Atan, Op::Asin, Op::Acos});
                return mk(op, {sub(budget - 1)});
            }
            default:
                return mk(Op::Atan2, {sub((budget - 1) / 2), sub((budget - 1) / 2)});
        }
    }
    }

    namespace {
        Ex exponentFor(Ctx& c, unsigned wInt, unsigned wFrac, unsigned wSym)
        {
            switch (c.weighted({wInt, wFrac, wSym})) {
                case 0: {
                    const int n = c.range(1, 4);
                    return mkInt(c.chance(40) ? -n : n);
                }
                case 1:
                    return fracExponent(c);
                default: {
                    const Ex s = mkSym({c.chance(50) ? "m" : "n", c.chance(30)});
                    if (c.chance(30))
                        return mk(Op::Mul, {c.chance(50) ? mkInt(genInt(c, 3)) : fracExponent(c), s});
                    if (c.chance(30))
                        return mk(Op::Add, {mkInt(genInt(c, 3)), s});
                    return s;
                }
            }
        }
        Ex powOrBase(const Ex& b, const Ex& e)
        {
            if (e->op == Op::Int && e->num == 1)
                return b;
            return mk(Op::Pow, {b, e});
        }
        Ex combine(Ctx& c, std::vector<Ex> f)
        {
            /* Either one n-ary product or nested binary ones, with divisions mixed in. */
            if (f.size() == 1)
                return f[0];
            switch (c.weighted({50, 25, 25})) {
                case 0:
                    return mk(Op::Mul, std::move(f));
                case 1: {
                    Ex e = f.back();
                    for (size_t i = f.size() - 1; i-- > 0;)
                        e = c.chance(25) ? mk(Op::Div, {f[i], e}) : mk(Op::Mul, {f[i], e});
                    return e;
                }
                default: {
                    const size_t h = f.size() / 2;
                    std::vector<Ex> l(f.begin(), f.begin() + h), r(f.begin() + h, f.end());
                    const Ex le = l.size() == 1 ? l[0] : mk(Op::Mul, l);
                    const Ex re = r.size() == 1 ? r[0] : mk(Op::Mul, r);
                    return mk(c.chance(25) ? Op::Div : Op::Mul, {le, re});
                }
            }
        }
    }

    Ex genTrigProduct(Ctx& c)
    {
        GenCfg g = trigCfg(c);
        std::vector<Ex> args;
        for (int i = 0, n = c.chance(20) ? 2 : 1; i < n; ++i)
            switch (c.weighted({40, 20, 20, 20})) {
                case 0:
                    args.push_back(mkSym(g.syms[0]));
                    break;
                case 1:
                    args.push_back(mkInt(c.range(1, 12)));
                    break;
                case 2:
                    args.push_back(mk(Op::Mul, {mkFrac(c.range(1, 40), c.pick(std::vector<int>{5, 7, 8, 9, 10, 12})), mk(Op::Pi)}));
                    break;
                default:
                    args.push_back(gen(c, g, 5));
            }
        std::vector<Ex> f;
        const unsigned mode = c.weighted({60, 25, 15});
        for (int i = 0, n = c.range(2, 5); i < n; ++i) {
            if (c.chance(12)) {
                f.push_back(genLeaf(c, g));
                continue;
            }
            const Op op = c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Tan});
            Ex e;
            if (mode == 0)
                e = exponentFor(c, 1, 0, 0);
            else if (mode == 1)
                e = exponentFor(c, 1, 1, 0);
            else
                e = exponentFor(c, 2, 1, 2);
            f.push_back(powOrBase(mk(op, {c.pick(args)}), e));
        }
        return combine(c, std::move(f));
    }

    Ex genTrigSum(Ctx& c)
    {
        /* c1*f(u)^n1*r1 + c2*g(v)^n2*r2 + ... with few different coefficients, arguments, exponents and cofactors. */
        GenCfg g = trigCfg(c);
        std::vector<Ex> args{c.chance(60) ? mkSym(g.syms[0]) : gen(c, g, static_cast<unsigned>(c.range(2, 5)))};
        if (c.chance(40))
            args.push_back(c.chance(50) ? mk(Op::Neg, {args[0]}) : gen(c, g, static_cast<unsigned>(c.range(1, 3))));
        std::vector<Ex> coeffs{c.chance(40) ? mkInt(1) : mkInt(genInt(c, 4))};
        if (c.chance(40))
            coeffs.push_back(c.pick(std::vector<Ex>{mkInt(2), mkInt(-1), mk(Op::Sqrt, {mkInt(2)}), mkFrac(1, 2), mk(Op::Pi)}));
        std::vector<Ex> exps{mkInt(c.pick(std::vector<int>{2, 4, 1, 3, -2, 6, 8}))};
        if (c.chance(40))
            exps.push_back(mkInt(c.range(1, 4)));
        if (c.chance(10))
            exps.push_back(mkSym({"n", c.chance(50)}));
        std::vector<Ex> cof;
        if (c.chance(25))
            cof.push_back(gen(c, g, 2));
        std::vector<Ex> terms;
        for (int i = 0, n = c.range(2, 4); i < n; ++i) {
            Ex t = powOrBase(mk(c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Sin, Op::Cos, Op::Tan}), {c.pick(args)}), c.pick(exps));
            const Ex& f = c.pick(coeffs);
            if (!(f->op == Op::Int && f->num == 1))
                t = mk(Op::Mul, {f, t});
            if (!cof.empty() && c.chance(80))
                t = mk(Op::Mul, {cof[0], t});
            terms.push_back(t);
        }
        if (c.chance(30))
            terms.push_back(genLeaf(c, g));
        Ex r = mk(Op::Add, terms);
        if (c.chance(15))
            r = mk(Op::Pow, {r, exponentFor(c, 1, 1, 0)});
        return r;
    }

    Ex genComposition(Ctx& c)
    {
        /* Trigonometric functions of trigonometric functions, logarithms of powers, exponentials of logarithms. */
        GenCfg g = c.chance(50) ? trigCfg(c) : powerCfg(c);
        if (c.chance(25))
            g = constCfg(c);
        static const std::vector<Op> fcts{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan};
        Ex x = gen(c, g, static_cast<unsigned>(c.range(1, 5)));
        const int depth = c.range(1, 3);
        for (int i = 0; i < depth; ++i) {
            switch (c.weighted({50, 10, 12, 12, 10})) {
                case 0:
                    x = mk(c.pick(fcts), {x});
                    break;
                case 1:
                    x = c.chance(50) ? mk(Op::Atan2, {x, gen(c, g, 2)}) : mk(Op::Atan2, {gen(c, g, 2), x});
                    break;
                case 2:
                    x = mk(Op::Log, {x});
                    break;
                case 3:
                    x = mk(Op::Pow, {c.chance(70) ? mk(Op::E) : genLeaf(c, g), x});
                    break;
                default:
                    x = mk(Op::Pow, {x, exponentFor(c, 2, 1, 1)});
            }
            switch (c.weighted({40, 12, 12, 12, 12, 12})) {
                case 0:
                    break;
                case 1:
                    x = mk(Op::Neg, {x});
                    break;
                case 2:
                    x = mk(Op::Add, {x, mk(Op::Mul, {mkFrac(genInt(c, 12), c.pick(std::vector<int>{1, 2, 3, 4, 6, 12, 5})), mk(Op::Pi)})});
                    break;
                case 3:
                    x = mk(Op::Mul, {mkInt(genInt(c, 3)), x});
                    break;
                case 4:
                    x = mk(Op::Mul, {x, genLeaf(c, g)});
                    break;
                default:
                    x = mk(c.chance(50) ? Op::Sub : Op::Add, {genLeaf(c, g), x});
            }
        }
        static const std::vector<Op> outer{Op::Sin, Op::Cos, Op::Tan, Op::Asin, Op::Acos, Op::Atan, Op::Log};
        return c.chance(85) ? mk(c.pick(outer), {x}) : x;
    }

    Ex genNumericPowerProduct(Ctx& c)
    {
        std::vector<Ex> f;
        const int max = c.chance(60) ? 12 : (c.chance(70) ? 150 : 3000);
        const int dens = c.range(1, 3);
        std::vector<int> d;
        for (int i = 0; i < dens; ++i)
            d.push_back(c.range(2, c.chance(30) ? 12 : 6));
        for (int i = 0, n = c.range(2, 6); i < n; ++i) {
            if (c.chance(15)) {
                f.push_back(c.chance(50) ? mkInt(genInt(c, max)) : mkFrac(genInt(c, max), c.range(2, max)));
                continue;
            }
            const Ex base = c.chance(60) ? mkInt(c.range(2, max)) : mkFrac(c.range(1, max), c.range(2, max));
            int num = c.range(1, 7);
            if (c.chance(35))
                num = -num;
            f.push_back(mk(Op::Pow, {base, mkFrac(num, c.pick(d))}));
        }
        return combine(c, std::move(f));
    }

    Ex genPowerTower(Ctx& c)
    {
        GenCfg g = powerCfg(c);
        Ex b = gen(c, g, static_cast<unsigned>(c.range(1, 5)));
        for (int i = 0, n = c.range(2, 3); i < n; ++i) {
            if (c.chance(30))
                b = mk(Op::Mul, {b, genLeaf(c, g)});
            else if (c.chance(12))
                b = mk(Op::Neg, {b});
            b = mk(Op::Pow, {b, exponentFor(c, 5, 5, 1)});
        }
        return b;
    }

    Ex genLikeTerms(Ctx& c)
    {
        GenCfg g = anyCfg(c);
        std::vector<Ex> t;
        for (int i = 0, n = c.range(1, 3); i < n; ++i)
            t.push_back(gen(c, g, static_cast<unsigned>(c.range(1, 6))));
        std::vector<Ex> terms;
        for (int i = 0, n = c.range(2, 7); i < n; ++i) {
            Ex f = c.pick(t);
            switch (c.weighted({40, 20, 20, 20})) {
                case 0:
                    f = mk(Op::Mul, {mkInt(genInt(c, 6)), f});
                    break;
                case 1:
                    f = mk(Op::Mul, {mkFrac(genInt(c, 6), c.range(2, 6)), f});
                    break;
                case 2:
                    f = mk(Op::Mul, {f, mk(Op::Sqrt, {mkInt(c.range(2, 12))})});
                    break;
                default:
                    break;
            }
            if (c.chance(20))
                f = mk(Op::Neg, {f});
            terms.push_back(f);
        }
        return mk(Op::Add, std::move(terms));
    }

    Ex genSameBases(Ctx& c)
    {
        GenCfg g = c.chance(70) ? powerCfg(c) : anyCfg(c);
        std::vector<Ex> bases;
        for (int i = 0, n = c.range(1, 2); i < n; ++i)
            bases.push_back(gen(c, g, static_cast<unsigned>(c.range(1, 6))));
        std::vector<Ex> f;
        const unsigned wSym = c.chance(40) ? 3 : 0;
        for (int i = 0, n = c.range(2, 5); i < n; ++i) {
            Ex b = c.pick(bases);
            if (c.chance(10))
                b = mk(Op::Neg, {b});
            f.push_back(c.chance(10) ? genLeaf(c, g) : powOrBase(b, exponentFor(c, 5, 4, wSym)));
        }
        return combine(c, std::move(f));
    }

    Ex genLong(Ctx& c, unsigned maxSyms, bool rational, unsigned positivePercent)
    {
        const std::vector<SymInfo> syms = someSymbols(c, static_cast<unsigned>(c.range(2, static_cast<int>(maxSyms))), positivePercent);
        std::vector<Ex> items;
        for (int i = 0, n = c.range(4, 12); i < n; ++i) {
            const SymInfo& s = c.pick(syms);
            switch (c.weighted({30, 20, 15, rational ? 0u : 10u, 12, rational ? 0u : 6u, rational ? 0u : 3u, 5})) {
                case 0:
                    items.push_back(mkSym(s));
                    break;
                case 1: {
                    const int e = c.range(2, c.chance(30) ? 12 : 4);
                    items.push_back(mk(Op::Pow, {mkSym(s), mkInt(c.chance(20) ? -e : e)}));
                    break;
                }
                case 2:
                    items.push_back(mk(Op::Mul, {mkSym(s), mkSym(c.pick(syms))}));
                    break;
                case 3:
                    items.push_back(mk(c.pick(std::vector<Op>{Op::Sin, Op::Cos, Op::Log, Op::Atan, Op::Tan, Op::Asin}), {mkSym(s)}));
                    break;
                case 4:
                    items.push_back(c.chance(60) ? mkInt(genInt(c, 12)) : mkFrac(genInt(c, 9), c.range(2, 12)));
                    break;
                case 5:
                    items.push_back(c.chance(50) ? mk(Op::Sqrt, {mkSym(s)}) : mk(Op::Sqrt, {mkInt(c.range(2, 12))}));
                    break;
                case 6:
                    items.push_back(mk(c.chance(50) ? Op::Pi : Op::E));
                    break;
                default:
                    items.push_back(mk(Op::Add, {mkSym(s), c.chance(50) ? mkInt(genInt(c, 5)) : mkSym(c.pick(syms))}));
            }
        }
        const auto some = [&](bool product) {
            std::vector<Ex> a;
            for (const auto& x : items) {
                if (c.chance(35))
                    continue;
                if (c.chance(60))
                    a.push_back(x);
                else if (product)
                    a.push_back(mk(Op::Pow, {x, mkInt(c.chance(40) ? -c.range(1, 3) : c.range(2, 3))}));
                else
                    a.push_back(mk(Op::Mul, {c.chance(70) ? mkInt(genInt(c, 4)) : mkFrac(genInt(c, 4), c.range(2, 5)), x}));
            }
            while (a.size() < 2)
                a.push_back(c.pick(items));
            return mk(product ? Op::Mul : Op::Add, std::move(a));
        };
        Ex r;
        switch (c.draw(8)) {
            case 0:
                r = mk(Op::Add, {some(false), some(false)});
                break;
            case 1:
                r = mk(Op::Sub, {some(false), some(false)});
                break;
            case 2:
                r = mk(Op::Add, {some(false), some(false), some(false)});
                break;
            case 3:
                r = mk(Op::Add, {mk(Op::Mul, {mkInt(genInt(c, 5)), some(false)}), some(false)});
                break;
            case 4:
                r = mk(Op::Mul, {some(true), some(true)});
                break;
            case 5:
                r = mk(Op::Div, {some(true), some(true)});
                break;
            case 6:
                r = mk(Op::Pow, {some(true), mkInt(c.chance(40) ? -c.range(1, 3) : c.range(2, 3))});
                break;
            default:
                r = mk(Op::Add, {some(true), some(true), some(false)});
        }
        if (!rational && c.chance(8))
            r = mk(c.pick(std::vector<Op>{Op::Sin, Op::Atan, Op::Log, Op::Sqrt}), {r});
        return r;
    }

    GenCfg polyCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(1, 4)), 20);
        g.wDiv = 0;
        g.negExp = false;
        return g;
    }

    GenCfg rationalCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(1, 3)), 20);
        g.wDiv = 8;
        return g;
    }

    GenCfg radicalCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(0, 1)), 50);
        g.wSym = 2;
        g.wInt = 12;
        g.wFrac = 8;
        g.wBig = 1;
        g.wE = 1;
        g.wPi = 1;
        g.maxInt = c.chance(50) ? 30 : 200;
        g.wPowFrac = 10;
        g.wSqrt = 10;
        g.wMul = 12;
        g.wPowInt = 4;
        g.wDiv = 5;
        return g;
    }

    GenCfg powerCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(1, 4)), 60);
        g.wSym = 14;
        g.wInt = 4;
        g.wFrac = 1;
        g.wE = 1;
        g.wAdd = 5;
        g.wSub = 2;
        g.wMul = 12;
        g.wPowInt = 8;
        g.wPowFrac = 12;
        g.wPowSym = 5;
        g.wPowAny = 2;
        g.wSqrt = 6;
        g.wLog = 1;
        g.wDiv = 5;
        return g;
    }

    GenCfg trigCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(1, 3)), 30);
        g.wPi = 3;
        g.wE = 1;
        g.wTrig = 16;
        g.wInvTrig = 8;
        g.wAtan2 = 2;
        g.wPowInt = 7;
        g.wSqrt = 2;
        g.maxExp = 3;
        return g;
    }

    GenCfg mixedCfg(Ctx& c)
    {
        GenCfg g;
        g.syms = someSymbols(c, static_cast<unsigned>(c.range(1, 4)), 60);
        g.wPi = 1;
        g.wE = 2;
        g.wTrig = 4;
        g.wInvTrig = 2;
        g.wAtan2 = 1;
        g.wLog = 6;
        g.wPowFrac = 4;
        g.wPowSym = 3;
        g.wPowAny = 2;
        g.wSqrt = 4;
        return g;
    }

    GenCfg doubleCfg(Ctx& c)
    {
        GenCfg g = c.chance(50) ? rationalCfg(c) : mixedCfg(c);
        g.wDbl = 8;
        return g;
    }

    GenCfg constCfg(Ctx& c)
    {
        GenCfg g = mixedCfg(c);
        g.syms.clear();
        g.wInt = 10;
        g.wFrac = 6;
        g.wPi = 4;
        g.wE = 3;
        g.wTrig = 6;
        return g;
    }

    GenCfg anyCfg(Ctx& c, std::string* which)
    {
        static const std::vector<std::string> names{"poly", "rational", "radical", "power", "trig", "mixed", "const", "double"};
        const unsigned k = c.weighted({12, 16, 16, 20, 16, 16, 6, 4});
        if (which != nullptr)
            *which = names[k];
        switch (k) {
            case 0:
                return polyCfg(c);
            case 1:
                return rationalCfg(c);
            case 2:
                return radicalCfg(c);
            case 3:
                return powerCfg(c);
            case 4:
                return trigCfg(c);
            case 5:
                return mixedCfg(c);
            case 6:
                return constCfg(c);
            default:
                return doubleCfg(c);
        }
    }
}
