// C11: linear algebra results satisfy their defining equations.
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <algorithm>
#include <array>
#include "../polymodel.h"

using namespace vf;
using tsym::Algo;
using tsym::Var;

namespace {
    /* ---- Exact evaluation at rational points ---- */
    using Point = std::map<std::string, BigRat>;

    std::optional<BigRat> ratPow(const BigRat& b, long e)
    {
        if (b == 0 && e < 0)
            return std::nullopt;
        BigRat r = 1, x = e < 0 ? BigRat(1 / b) : b;
        for (long i = 0; i < std::labs(e); ++i)
            r *= x;
        return r;
    }

    std::optional<BigRat> exactVar(const Var& v, const Point& pt)
    {
        const auto ops = tsym::operands(v);
        switch (v.type()) {
            case Var::Type::INT:
            case Var::Type::FRACTION:
                return exactOf(v);
            case Var::Type::SYMBOL: {
                const auto it = pt.find(tsym::name(v));
                if (it == pt.end())
                    throw Fail{"foreign-symbol", "unknown symbol " + tsym::name(v), ""};
                return it->second;
            }
            case Var::Type::SUM:
            case Var::Type::PRODUCT: {
                BigRat r = v.type() == Var::Type::SUM ? 0 : 1;
                for (const auto& o : ops) {
                    const auto x = exactVar(o, pt);
                    if (!x)
                        return std::nullopt;
                    if (v.type() == Var::Type::SUM)
                        r += *x;
                    else
                        r *= *x;
                }
                return r;
            }
            case Var::Type::POWER: {
                const auto b = exactVar(ops[0], pt);
                if (!b || ops[1].type() != Var::Type::INT)
                    return std::nullopt;
                return ratPow(*b, static_cast<long>(numerator(exactOf(ops[1]))));
            }
            default:
                throw Fail{"not-rational", "not a rational expression: " + dump(v), ""};
        }
    }

    std::optional<BigRat> exactEx(const Ex& e, const Point& pt)
    {
        std::vector<BigRat> a;
        for (const auto& x : e->args) {
            const auto v = exactEx(x, pt);
            if (!v)
                return std::nullopt;
            a.push_back(*v);
        }
        BigRat r;
        switch (e->op) {
            case Op::Int:
            case Op::Frac:
                return BigRat(e->num, e->den);
            case Op::Sym:
                return pt.at(e->sym.name);
            case Op::Add:
                r = 0;
                for (const auto& x : a)
                    r += x;
                return r;
            case Op::Mul:
                r = 1;
                for (const auto& x : a)
                    r *= x;
                return r;
            case Op::Sub:
                return a[0] - a[1];
            case Op::Neg:
                return -a[0];
            case Op::Div:
                if (a[1] == 0)
                    return std::nullopt;
                return a[0] / a[1];
            case Op::Pow:
                return ratPow(a[0], static_cast<long>(numerator(a[1])));
            default:
                throw std::logic_error("unexpected operation");
        }
    }

    using RMat = std::vector<std::vector<BigRat>>;

    BigRat detLeibniz(const RMat& m)
    {
        std::vector<size_t> p(m.size());
        for (size_t i = 0; i < p.size(); ++i)
            p[i] = i;
        BigRat det = 0;
        do {
            BigRat t = 1;
            for (size_t i = 0; i < p.size() && t != 0; ++i)
                t *= m[i][p[i]];
            int inv = 0;
            for (size_t i = 0; i < p.size(); ++i)
                for (size_t j = i + 1; j < p.size(); ++j)
                    inv += p[i] > p[j];
            det += inv % 2 ? BigRat(-t) : t;
        } while (std::next_permutation(p.begin(), p.end()));
        return det;
    }

    /* By elimination, for larger matrices. */
    BigRat detOf(RMat m)
    {
        if (m.size() < 6)
            return detLeibniz(m);
        BigRat det = 1;
        for (size_t k = 0; k < m.size(); ++k) {
            size_t p = k;
            while (p < m.size() && m[p][k] == 0)
                ++p;
            if (p == m.size())
                return 0;
            if (p != k) {
                std::swap(m[p], m[k]);
                det = -det;
            }
            det *= m[k][k];
            for (size_t i = k + 1; i < m.size(); ++i) {
                const BigRat f = m[i][k] / m[k][k];
                if (f != 0)
                    for (size_t j = k; j < m.size(); ++j)
                        m[i][j] -= f * m[k][j];
            }
        }
        return det;
    }

    /* ---- Problem generation ---- */
    struct Problem {
        std::vector<std::vector<Ex>> A;
        std::vector<Ex> b;
        std::map<std::string, bool> syms;
        bool numeric = true;
    };

    std::string showProblem(const Problem& p)
    {
        std::string s = "A = [";
        for (const auto& r : p.A) {
            for (const auto& e : r)
                s += show(e) + " ";
            s += "; ";
        }
        s += "] b = [";
        for (const auto& e : p.b)
            s += show(e) + " ";
        return s + "]";
    }

    Ex genEntry(Ctx& c, const std::vector<SymInfo>& syms, bool numeric, unsigned symbolic = 50)
    {
        const auto number = [&] { return c.chance(75) ? mkInt(genInt(c, 9)) : mkFrac(genInt(c, 9), c.range(1, 9)); };
        if (c.chance(22))
            return mkInt(0);
        if (numeric || !c.chance(symbolic))
            return number();
        const Ex s = mkSym(c.pick(syms));
        switch (symbolic < 50 ? c.weighted({6, 3, 2, 0, 1, 0, 1}) : c.weighted({6, 3, 3, 1, 1, 1, 1, 1})) {
            case 0:
                return s;
            case 1:
                return mk(Op::Mul, {number(), s});
            case 2:
                return mk(Op::Add, {s, number()});
            case 3:
                return mk(Op::Div, {number(), s});
            case 4:
                return mk(Op::Pow, {s, mkInt(2)});
            case 5:
                return mk(Op::Mul, {s, mkSym(c.pick(syms))});
            case 6: { /* Zero, but not recognisable without expansion. */
                const Ex t = mkSym(c.pick(syms));
                return mk(Op::Sub, {mk(Op::Mul, {s, mk(Op::Add, {t, mkInt(1)})}),
                                     mk(Op::Add, {mk(Op::Mul, {s, t}), s})});
            }
            default:
                return mk(Op::Div, {s, mk(Op::Add, {mkSym(c.pick(syms)), mkInt(c.range(1, 3))})});
        }
    }

    Problem genProblem(Ctx& c, size_t n, bool large = false)
    {
        Problem p;
        const auto syms = someSymbols(c, static_cast<unsigned>(c.range(1, 3)), 20);
        for (const auto& s : syms)
            p.syms[s.name] = s.positive;
        p.numeric = n > 3 || c.chance(40);
        p.A.assign(n, std::vector<Ex>(n));
        for (auto& r : p.A)
            for (auto& e : r)
                e = genEntry(c, syms, p.numeric, n < 3 ? 50 : 25);
        if (large) {
            /* Many zeros and few symbols. */
            const unsigned zeros = c.pick(std::vector<unsigned>{0, 30, 60});
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (c.chance(zeros) && (i != j || c.chance(50)))
                        p.A[i][j] = mkInt(0);
            for (int i = 0, k = c.range(0, n > 6 ? 1 : 3); i < k; ++i)
                p.A[c.draw(static_cast<uint32_t>(n))][c.draw(static_cast<uint32_t>(n))] = mkSym(c.pick(syms));
        }
        for (size_t i = 0; i < n; ++i)
            p.b.push_back(genEntry(c, syms, (p.numeric && c.chance(60)) || large, n < 3 ? 50 : 25));
        if (n >= 2)
            switch (c.weighted({10, 2, 2, 1, 1, 1})) {
                case 0:
                    break;
                case 1: { /* Singular: a row is a combination of the others. */
                    const size_t k = c.draw(static_cast<uint32_t>(n));
                    const size_t i = (k + 1) % n, j = (k + n - 1) % n;
                    const Ex f = genEntry(c, syms, p.numeric || n > 2), g = genEntry(c, syms, true);
                    for (size_t l = 0; l < n; ++l)
                        p.A[k][l] = mk(Op::Add, {mk(Op::Mul, {f, p.A[i][l]}), mk(Op::Mul, {g, p.A[j][l]})});
                    break;
                }
                case 2: { /* Zero diagonal. */
                    for (size_t l = 0; l < n; ++l)
                        p.A[l][l] = mkInt(0);
                    break;
                }
                case 3: { /* Equal columns. */
                    const size_t k = c.draw(static_cast<uint32_t>(n));
                    for (size_t l = 0; l < n; ++l)
                        p.A[l][k] = p.A[l][(k + 1) % n];
                    break;
                }
                case 4: /* Equal leading minors: a zero pivot shows up during the elimination. */
                    for (size_t l = 0; l < n; ++l)
                        p.A[1][l] = l < n - 1 ? p.A[0][l] : p.A[1][l];
                    break;
                default: /* Permuted triangular matrix. */
                    for (size_t i = 0; i < n; ++i)
                        for (size_t j = 0; j < n - 1 - i; ++j)
                            p.A[i][j] = mkInt(0);
            }
        return p;
    }

    std::vector<bool> genSkip(Ctx& c, size_t n)
    {
        std::vector<bool> s(n, false);
        if (c.chance(35))
            for (size_t i = 0; i < n; ++i)
                s[i] = c.chance(35);
        return s;
    }

    /* ---- Containers ---- */
    struct CallMatrix {
        size_t n;
        std::vector<Var> d;
        Var& operator()(int i, int j)
        {
            return d[static_cast<size_t>(i) * n + static_cast<size_t>(j)];
        }
        const Var& operator()(int i, int j) const
        {
            return d[static_cast<size_t>(i) * n + static_cast<size_t>(j)];
        }
    };
    struct CallVector {
        std::vector<Var> d;
        Var& operator()(int i)
        {
            return d[static_cast<size_t>(i)];
        }
        const Var& operator()(int i) const
        {
            return d[static_cast<size_t>(i)];
        }
    };
    struct CallSkip {
        std::vector<bool> d;
        bool operator()(int i) const
        {
            return d[static_cast<size_t>(i)];
        }
    };
    using VMat = std::vector<std::vector<Var>>;
    using VVec = std::vector<Var>;

    enum class Task { SOLVE, DET, INVERT };

    struct Outcome {
        bool singular = false;
        VVec x;
        Var det;
        VMat A; /* The matrix afterwards. */
        VVec b;
    };

    /* Runs one of the functions with the given access interface. x is filled with markers before. */
    Outcome run(Task task, unsigned iface, const VMat& A, const VVec& b, const std::vector<bool>& skip, bool useSkip, Algo algo, bool alias)
    {
        const size_t n = A.size();
        const int in = static_cast<int>(n);
        Outcome o;
        o.A = A;
        o.b = b;
        const Var marker("marker");
        o.x.assign(n, marker);
        try {
            switch (iface) {
                case 0: /* std::vector, std::size_t */
                    if (task == Task::SOLVE) {
                        if (alias) {
                            useSkip ? tsym::solve(o.A, o.b, o.b, skip, n, algo) : tsym::solve(o.A, o.b, o.b, n, algo);
                            o.x = o.b;
                            o.b = b;
                        } else
                            useSkip ? tsym::solve(o.A, o.b, o.x, skip, n, algo) : tsym::solve(o.A, o.b, o.x, n, algo);
                    } else if (task == Task::DET)
                        o.det = useSkip ? tsym::determinant(o.A, skip, n, algo) : tsym::determinant(o.A, n, algo);
                    else
                        useSkip ? tsym::invert(o.A, skip, n, algo) : tsym::invert(o.A, n, algo);
                    break;
                case 1: { /* Call operators, int. */
                    CallMatrix m{n, {}};
                    for (const auto& r : A)
                        m.d.insert(m.d.end(), r.begin(), r.end());
                    CallVector x{o.x}, rhs{b};
                    const CallSkip s{skip};
                    bool threw = false;
                    try {
                        if (task == Task::SOLVE)
                            useSkip ? tsym::solve(m, rhs, x, s, in, algo) : tsym::solve(m, rhs, x, in, algo);
                        else if (task == Task::DET)
                            o.det = useSkip ? tsym::determinant(m, s, in, algo) : tsym::determinant(m, in, algo);
                        else
                            useSkip ? tsym::invert(m, s, in, algo) : tsym::invert(m, in, algo);
                    } catch (const std::invalid_argument&) {
                        threw = true;
                    }
                    o.x = x.d;
                    o.b = rhs.d;
                    for (size_t i = 0; i < n; ++i)
                        for (size_t j = 0; j < n; ++j)
                            o.A[i][j] = m(static_cast<int>(i), static_cast<int>(j));
                    o.singular = threw;
                    return o;
                }
                case 2: { /* ublas */
                    boost::numeric::ublas::matrix<Var> m(n, n);
                    boost::numeric::ublas::vector<Var> x(n), rhs(n);
                    for (size_t i = 0; i < n; ++i) {
                        x(i) = marker;
                        rhs(i) = b[i];
                        for (size_t j = 0; j < n; ++j)
                            m(i, j) = A[i][j];
                    }
                    bool threw = false;
                    try {
                        if (task == Task::SOLVE)
                            useSkip ? tsym::solve(m, rhs, x, skip, n, algo) : tsym::solve(m, rhs, x, n, algo);
                        else if (task == Task::DET)
                            o.det = useSkip ? tsym::determinant(m, skip, n, algo) : tsym::determinant(m, n, algo);
                        else
                            useSkip ? tsym::invert(m, skip, n, algo) : tsym::invert(m, n, algo);
                    } catch (const std::invalid_argument&) {
                        threw = true;
                    }
                    for (size_t i = 0; i < n; ++i) {
                        o.x[i] = x(i);
                        o.b[i] = rhs(i);
                        for (size_t j = 0; j < n; ++j)
                            o.A[i][j] = m(i, j);
                    }
                    o.singular = threw;
                    return o;
                }
                case 3: { /* Forwarding lambda and owning pointers, std::size_t. */
                    VVec data;
                    for (const auto& r : A)
                        data.insert(data.end(), r.begin(), r.end());
                    const std::unique_ptr<Var[]> rhs(new Var[n]);
                    std::unique_ptr<Var[]> x(new Var[n]);
                    auto m = [&data, n](auto i, auto j) -> Var& { return data[n * i + j]; };
                    const auto s = [&skip](auto i) { return skip[i]; };
                    for (size_t i = 0; i < n; ++i) {
                        x[i] = marker;
                        rhs[i] = b[i];
                    }
                    bool threw = false;
                    try {
                        if (task == Task::SOLVE)
                            useSkip ? tsym::solve(m, rhs, x, s, n, algo) : tsym::solve(m, rhs, x, n, algo);
                        else if (task == Task::DET)
                            o.det = useSkip ? tsym::determinant(m, s, n, algo) : tsym::determinant(m, n, algo);
                        else
                            useSkip ? tsym::invert(m, s, n, algo) : tsym::invert(m, n, algo);
                    } catch (const std::invalid_argument&) {
                        threw = true;
                    }
                    for (size_t i = 0; i < n; ++i) {
                        o.x[i] = x[i];
                        o.b[i] = rhs[i];
                        for (size_t j = 0; j < n; ++j)
                            o.A[i][j] = data[n * i + j];
                    }
                    o.singular = threw;
                    return o;
                }
                default: { /* Plain arrays and pointers, unsigned. */
                    Var m[10][10], rhs[10], x[10];
                    bool s[10] = {};
                    for (size_t i = 0; i < n; ++i) {
                        x[i] = marker;
                        rhs[i] = b[i];
                        s[i] = skip[i];
                        for (size_t j = 0; j < n; ++j)
                            m[i][j] = A[i][j];
                    }
                    bool threw = false;
                    const unsigned un = static_cast<unsigned>(n);
                    try {
                        if (task == Task::SOLVE)
                            useSkip ? tsym::solve(m, rhs, x, s, un, algo) : tsym::solve(m, rhs, x, un, algo);
                        else if (task == Task::DET)
                            o.det = useSkip ? tsym::determinant(m, s, un, algo) : tsym::determinant(m, un, algo);
                        else
                            useSkip ? tsym::invert(m, s, un, algo) : tsym::invert(m, un, algo);
                    } catch (const std::invalid_argument&) {
                        threw = true;
                    }
                    for (size_t i = 0; i < n; ++i) {
                        o.x[i] = x[i];
                        o.b[i] = rhs[i];
                        for (size_t j = 0; j < n; ++j)
                            o.A[i][j] = m[i][j];
                    }
                    o.singular = threw;
                    return o;
                }
            }
        } catch (const std::invalid_argument&) {
            o.singular = true;
        }
        return o;
    }

    bool sameDump(const VMat& a, const VMat& b)
    {
        for (size_t i = 0; i < a.size(); ++i)
            for (size_t j = 0; j < a.size(); ++j)
                if (dump(a[i][j]) != dump(b[i][j]))
                    return false;
        return true;
    }

    const char* taskName(Task t)
    {
        return t == Task::SOLVE ? "solve" : t == Task::DET ? "determinant" : "invert";
    }

    void rational(Ctx& c, Task task, bool large = false)
    {
        const size_t n = static_cast<size_t>(large ? c.range(4, task == Task::INVERT ? 7 : 9) : task == Task::INVERT ? c.range(1, 3) : c.weighted({3, 4, 4, 2, 1}) + 1);
        const Problem p = genProblem(c, n, large);
        std::vector<bool> skip = genSkip(c, n);
        bool useSkip = c.chance(10);
        for (const bool s : skip)
            useSkip = useSkip || s;
        const Algo algo = c.chance(50) ? Algo::Gauss : Algo::GaussLCPivot;
        const unsigned iface = c.weighted({5, 2, 2, 2, 2});
        const bool alias = task == Task::SOLVE && iface == 0 && c.chance(15);
        std::string st;
        for (const bool s : skip)
            st += s ? "1" : "0";
        c.input(std::string(taskName(task)) + " " + showProblem(p) + " skip=" + (useSkip ? st : "none") +
          " algo=" + (algo == Algo::Gauss ? "Gauss" : "GaussLCPivot") + " interface=" + std::to_string(iface));
        VMat A(n, VVec(n));
        VVec b(n);
        for (size_t i = 0; i < n; ++i) {
            b[i] = build(p.b[i]);
            if (b[i].type() == Var::Type::UNDEFINED)
                c.discard("undefined entry");
            for (size_t j = 0; j < n; ++j) {
                A[i][j] = build(p.A[i][j]);
                if (A[i][j].type() == Var::Type::UNDEFINED)
                    c.discard("undefined entry");
            }
        }
        /* Reference values at random points. */
        std::vector<size_t> idx;
        for (size_t i = 0; i < n; ++i)
            if (!skip[i])
                idx.push_back(i);
        const size_t m = idx.size();
        struct Ref {
            Point pt;
            RMat A;
            std::vector<BigRat> b;
            BigRat det;
        };
        std::vector<Ref> refs;
        for (int k = 0; k < 4; ++k) {
            Ref r;
            for (const auto& [name, positive] : p.syms) {
                const BigRat v(c.range(2, 99991), c.pick(std::vector<int>{7, 11, 13, 17, 19, 23, 1009}));
                r.pt[name] = !positive && c.chance(40) ? BigRat(-v) : v;
            }
            bool ok = true;
            r.A.assign(m, std::vector<BigRat>(m));
            r.b.resize(m);
            for (size_t i = 0; ok && i < m; ++i) {
                const auto bi = exactEx(p.b[idx[i]], r.pt);
                ok = ok && bi;
                if (bi)
                    r.b[i] = *bi;
                for (size_t j = 0; ok && j < m; ++j) {
                    const auto a = exactEx(p.A[idx[i]][idx[j]], r.pt);
                    ok = ok && a;
                    if (a)
                        r.A[i][j] = *a;
                }
            }
            if (!ok)
                continue;
            r.det = detOf(r.A);
            refs.push_back(r);
        }
        if (refs.size() < 3)
            c.discard("no reference point");
        bool singular = true;
        for (const auto& r : refs)
            singular = singular && r.det == 0;
        const Outcome o = run(task, iface, A, b, skip, useSkip, algo, alias);
        ++c.checks;
        const auto outcome = [&] {
            std::string s = o.singular ? "singular" : "";
            if (task == Task::DET)
                s += " det = " + dump(o.det);
            else if (task == Task::SOLVE)
                for (const auto& x : o.x)
                    s += " " + dump(x);
            else
                for (const auto& r : o.A)
                    for (const auto& x : r)
                        s += " " + dump(x);
            return s;
        };
        /* Inputs stay as they were. */
        if (task != Task::INVERT || o.singular)
            c.require(sameDump(o.A, A), "matrix-changed", outcome);
        for (size_t i = 0; i < n; ++i)
            c.require(dump(o.b[i]) == dump(b[i]), "rhs-changed", outcome);
        if (singular) {
            c.label("singular");
            if (task == Task::DET)
                c.require(o.singular || o.det == 0, "singular-determinant", outcome);
            else {
                c.require(o.singular, "singular-undetected", outcome);
                if (task == Task::SOLVE && !alias)
                    for (const auto& x : o.x)
                        c.require(x == Var("marker"), "solution-written-although-singular", outcome);
            }
            c.nontrivial(m >= 2);
            return;
        }
        c.label("regular");
        c.require(!o.singular, "regular-reported-singular", outcome);
        unsigned points = 0;
        for (const auto& r : refs) {
            if (r.det == 0)
                continue;
            if (task == Task::DET) {
                const auto d = exactVar(o.det, r.pt);
                if (!d)
                    continue;
                ++points;
                c.require(*d == r.det, "determinant", [&] { return outcome() + ", expected " + r.det.str(); });
            } else if (task == Task::SOLVE) {
                std::vector<BigRat> x;
                bool ok = true;
                for (size_t i = 0; ok && i < m; ++i) {
                    const auto v = exactVar(o.x[idx[i]], r.pt);
                    ok = ok && v;
                    if (v)
                        x.push_back(*v);
                }
                if (!ok)
                    continue;
                ++points;
                for (size_t i = 0; i < m; ++i) {
                    BigRat s = 0;
                    for (size_t j = 0; j < m; ++j)
                        s += r.A[i][j] * x[j];
                    c.require(s == r.b[i], "A*x=b", outcome);
                }
            } else {
                RMat inv(m, std::vector<BigRat>(m));
                bool ok = true;
                for (size_t i = 0; ok && i < m; ++i)
                    for (size_t j = 0; ok && j < m; ++j) {
                        const auto v = exactVar(o.A[idx[i]][idx[j]], r.pt);
                        ok = ok && v;
                        if (v)
                            inv[i][j] = *v;
                    }
                if (!ok)
                    continue;
                ++points;
                for (size_t i = 0; i < m; ++i)
                    for (size_t j = 0; j < m; ++j) {
                        BigRat s = 0, t = 0;
                        for (size_t k = 0; k < m; ++k) {
                            s += r.A[i][k] * inv[k][j];
                            t += inv[i][k] * r.A[k][j];
                        }
                        c.require(s == (i == j ? 1 : 0) && t == s, "A*inv=1", outcome);
                    }
            }
        }
        if (task == Task::SOLVE)
            for (size_t i = 0; i < n; ++i)
                if (skip[i])
                    c.require(dump(o.x[i]) == (alias ? dump(b[i]) : std::string("marker")), "skipped-solution-changed", outcome);
        if (task == Task::INVERT)
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j)
                    if (skip[i] || skip[j])
                        c.require(dump(o.A[i][j]) == dump(A[i][j]), "skipped-entry-changed", outcome);
        c.label(points ? "points-compared" : "no-point");
        c.nontrivial(m >= 2 && points > 0);
        c.label(p.numeric ? "numeric" : "symbolic");
    }

    /* Coefficients with functions, roots and constants (algebraically independent of each other). */
    void atoms(Ctx& c)
    {
        const size_t n = static_cast<size_t>(c.range(2, 3));
        const SymInfo a{"a", false}, b{"b", false}, q{"q", true};
        const std::vector<Ex> all{mk(Op::Sin, {mkSym(a)}), mk(Op::Pi), mk(Op::Sqrt, {mkSym(q)}), mk(Op::Sqrt, {mkInt(2)}), mkSym(b),
          mk(Op::Log, {mkSym(q)}), mk(Op::Atan, {mkSym(b)})};
        const std::vector<Ex> pool{c.pick(all), c.pick(all)};
        const unsigned w = n == 2 ? 3 : 1;
        Problem p;
        p.syms = {{"a", false}, {"b", false}, {"q", true}};
        p.A.assign(n, std::vector<Ex>(n));
        const auto entry = [&]() -> Ex {
            switch (c.weighted({2, 4, w, w, n == 2 ? 1u : 0u})) {
                case 0:
                    return mkInt(0);
                case 1:
                    return mkInt(genInt(c, 9));
                case 2:
                    return c.pick(pool);
                case 3:
                    return mk(Op::Mul, {mkInt(genInt(c, 5)), c.pick(pool)});
                default:
                    return mk(Op::Add, {mkInt(genInt(c, 5)), c.pick(pool)});
            }
        };
        for (auto& r : p.A)
            for (auto& e : r)
                e = entry();
        for (size_t i = 0; i < n; ++i)
            p.b.push_back(entry());
        const Algo algo = c.chance(50) ? Algo::Gauss : Algo::GaussLCPivot;
        const bool det = c.chance(50);
        c.input((det ? "det " : "solve ") + showProblem(p) + (algo == Algo::Gauss ? " Gauss" : " GaussLCPivot"));
        VMat A(n, VVec(n));
        VVec rhs(n);
        for (size_t i = 0; i < n; ++i) {
            rhs[i] = build(p.b[i]);
            for (size_t j = 0; j < n; ++j)
                A[i][j] = build(p.A[i][j]);
        }
        const Outcome o = run(det ? Task::DET : Task::SOLVE, 0, A, rhs, std::vector<bool>(n, false), false, algo, false);
        ++c.checks;
        const Env env = randomEnv(c, p.syms, false);
        std::vector<std::vector<Val>> m(n, std::vector<Val>(n));
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                m[i][j] = eval(p.A[i][j], env);
                if (!m[i][j].ok())
                    c.discard("no value");
            }
        Val d = n == 2 ? vAdd(vMul(m[0][0], m[1][1]), vNeg(vMul(m[0][1], m[1][0]))) : Val::exact(0);
        if (n == 3)
            for (size_t k = 0; k < 3; ++k) {
                d = vAdd(d, vMul(m[0][k], vMul(m[1][(k + 1) % 3], m[2][(k + 2) % 3])));
                d = vAdd(d, vNeg(vMul(m[0][k], vMul(m[1][(k + 2) % 3], m[2][(k + 1) % 3]))));
            }
        const bool singular = !d.ok() || abs(d.v) < Mp("1e-40");
        if (singular) {
            c.label("singular");
            if (det)
                c.require(o.singular || o.det == 0, "singular-determinant", [&] { return dump(o.det); });
            else
                c.require(o.singular, "singular-undetected", [&] { return dump(o.x[0]); });
            return;
        }
        c.require(!o.singular, "regular-reported-singular", [&] { return show(d); });
        if (det) {
            const Val g = evalVar(o.det, env);
            if (g.ok()) {
                c.require(compare(g, d) != Cmp::DIFFERENT, "determinant", [&] { return dump(o.det) + " = " + show(g) + " vs. " + show(d); });
                c.nontrivial();
            }
        } else {
            for (size_t i = 0; i < n; ++i) {
                Val s = Val::exact(0);
                for (size_t j = 0; j < n; ++j)
                    s = vAdd(s, vMul(m[i][j], evalVar(o.x[j], env)));
                const Val w = eval(p.b[i], env);
                if (!s.ok() || !w.ok())
                    continue;
                c.require(compare(s, w) != Cmp::DIFFERENT, "A*x=b", [&] { return dump(o.x[0]) + " " + show(s) + " vs. " + show(w); });
                c.nontrivial();
            }
        }
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C11";
    p.rule = "two or more unknowns after skipping, and singular, or compared with the exact equations at one or more points";
    p.beforeCase = resetLibrary;
    p.caseCpuSeconds = 5;
    p.suites.push_back({"solve", 30000, 600000, [](Ctx& c) { rational(c, Task::SOLVE); }});
    p.suites.push_back({"determinant", 30000, 600000, [](Ctx& c) { rational(c, Task::DET); }});
    p.suites.push_back({"invert", 20000, 400000, [](Ctx& c) { rational(c, Task::INVERT); }});
    p.suites.push_back({"large", 4000, 150000, [](Ctx& c) { rational(c, c.pick(std::vector<Task>{Task::SOLVE, Task::DET, Task::INVERT}), true); }});
    p.suites.push_back({"atoms", 10000, 200000, atoms});
    return p;
}
