// Independent expression model: own syntax tree, own high precision evaluation, construction through the public API.
#ifndef VF_EXPR_H
#define VF_EXPR_H

#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "engine.h"
#include "tsym/tsym.h"

namespace vf {
    using BigInt = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;
    using BigRat =
      boost::multiprecision::number<boost::multiprecision::rational_adaptor<boost::multiprecision::cpp_int_backend<>>,
        boost::multiprecision::et_off>;
    using Mp = boost::multiprecision::number<boost::multiprecision::cpp_bin_float<60>, boost::multiprecision::et_off>;

    enum class Op {
        Int, /* num */
        Frac, /* num/den */
        Dbl,
        Sym,
        Pi,
        E,
        Add,
        Sub,
        Neg,
        Mul,
        Div,
        Pow,
        Sqrt,
        Log,
        Sin,
        Cos,
        Tan,
        Asin,
        Acos,
        Atan,
        Atan2
    };

    struct Node;
    using Ex = std::shared_ptr<const Node>;

    struct SymInfo {
        std::string name;
        bool positive;
    };

    struct Node {
        Op op;
        BigInt num{0}, den{1};
        double dbl = 0;
        SymInfo sym;
        std::vector<Ex> args;
    };

    /* Constructors. */
    Ex mkInt(const BigInt& n);
    Ex mkFrac(const BigInt& n, const BigInt& d);
    Ex mkDbl(double d);
    Ex mkSym(const SymInfo& s);
    Ex mk(Op op, std::vector<Ex> args = {});

    std::string show(const Ex& e);
    unsigned countNodes(const Ex& e);
    unsigned depthOf(const Ex& e);
    bool contains(const Ex& e, Op op);
    std::string symbolKey(const tsym::Var& symbol);
    /* Keys are names, with a trailing plus sign for positive symbols. */
    void symbolsOf(const Ex& e, std::map<std::string, bool>& result);
    double estTerms(const Ex& e); /* Rough number of terms after full expansion. */

    /* Build via the public API. atan2 with two symbol-free arguments is discarded, if requested. */
    struct BuildOpts {
        bool noNumericAtan2 = true;
    };
    tsym::Var build(const Ex& e, const BuildOpts& o = {});
    tsym::Var bigVar(const BigInt& n);
    tsym::Var ratVar(const BigInt& n, const BigInt& d);
    tsym::Var symVar(const SymInfo& s);

    /* Evaluation with a rigorous-style running error bound. */
    struct Val {
        enum class St { OK, UNDEF, AMBIG } st = St::AMBIG;
        Mp v{0}, e{0};
        bool ok() const
        {
            return st == St::OK;
        }
        static Val undef()
        {
            return {St::UNDEF, 0, 0};
        }
        static Val ambig()
        {
            return {St::AMBIG, 0, 0};
        }
        static Val make(const Mp& v, const Mp& e);
        static Val exact(const Mp& v)
        {
            return {St::OK, v, 0};
        }
    };

    Val vAdd(const Val& a, const Val& b);
    Val vNeg(const Val& a);
    Val vMul(const Val& a, const Val& b);
    Val vDiv(const Val& a, const Val& b);
    Val vPow(const Val& a, const Val& b);
    Val vFct(Op op, const Val& a);
    Val vAtan2(const Val& y, const Val& x);
    Val vPi();
    Val vE();
    Val vRat(const BigInt& n, const BigInt& d);
    Val vDouble(double d);

    /* Values are exact rationals with few digits, wrapped into Val. */
    using Env = std::map<std::string, Val>;

    Val eval(const Ex& e, const Env& env);
    /* Walks the expression with public functions only. Unknown symbols yield a Fail. */
    Val evalVar(const tsym::Var& v, const Env& env);

    enum class Cmp { EQUAL, DIFFERENT, SKIP };
    Cmp compare(const Val& a, const Val& b);
    std::string show(const Val& v);

    std::string str(const tsym::Var& v);
    const char* typeName(tsym::Var::Type t);
    /* Unambiguous dump of the structure by type/operands/name. */
    std::string dump(const tsym::Var& v);
    /* Exact number out of an INT/FRACTION leaf. */
    BigRat exactOf(const tsym::Var& v);
    unsigned sizeOf(const tsym::Var& v);
    /* Contains a fractional power of a base with undetermined sign, or of a composite with factors of undetermined sign. Such powers are deliberately not contracted, if that
     * would hide the fact that they could be undefined, thus their form depends on the order of operations. */
    bool hasUndeterminedRoot(const tsym::Var& v);

    /* Contains a product of several numeric powers, or of a number and a numeric power (finding numeric-power-forms). */
    bool hasAmbiguousNumericPowers(const tsym::Var& v);
    /* Contains a product with a constant sum. */
    bool hasConstantSumFactor(const tsym::Var& v);

    void silenceLogger();
    void resetLibrary(); /* Clears all caches. */

    /* Random points. */
    Env randomEnv(Ctx& c, const std::map<std::string, bool>& syms, bool allowInt = true);
    /* False if symbol-free parts are tiny, or huge and irrational, or large trigonometric arguments. */
    bool inNumericRange(const Ex& e);
    bool isExactExpr(const Ex& e); /* Rational arithmetic only. */
    /* The name with a suffix, as long as this is a valid name. */
    std::string otherName(const std::string& name, const std::string& suffix);
    bool hasSymbolicExponent(const Ex& e);
    /* Bound for the decimal order of magnitude that double coefficients can reach. */
    double doubleRisk(const Ex& e);
    double magnitudeRisk(const Ex& e, double factor = 1.0); /* The same without looking for doubles. */
    std::string show(const Env& env);

    /* The basic value check: wherever the recipe has a value, the result must have the same one. Returns the number of
     * points with a verdict. */
    struct ValueOpts {
        unsigned points = 2;
        bool allowUndefAtPoint = false; /* The result may be undefined at single points (documented domain shrinking). */
        bool strictTypeUndefined = true;
    };
    unsigned checkValue(
      Ctx& c, const char* tag, const Ex& recipe, const tsym::Var& result, const ValueOpts& o = ValueOpts());

    /* ---- Generators ---- */
    struct GenCfg {
        std::vector<SymInfo> syms;
        /* Weights for leaves. */
        unsigned wSym = 10, wInt = 6, wFrac = 3, wDbl = 0, wPi = 0, wE = 0, wBig = 0;
        /* Weights for operations. */
        unsigned wAdd = 10, wSub = 4, wNeg = 2, wMul = 10, wDiv = 4, wPowInt = 5, wPowFrac = 0, wPowSym = 0, wPowAny = 0,
                 wSqrt = 0, wLog = 0, wTrig = 0, wInvTrig = 0, wAtan2 = 0;
        int maxInt = 9;
        int maxExp = 4;
        bool negExp = true;
        unsigned maxArity = 3;
        unsigned reuse = 12; /* Percentage of sub-expressions taken from earlier ones. */
        std::shared_ptr<std::vector<Ex>> pool = std::make_shared<std::vector<Ex>>();
    };
    Ex gen(Ctx& c, const GenCfg& g, unsigned budget);
    Ex genLeaf(Ctx& c, const GenCfg& g);
    /* Structured recipes with much potential for contraction. */
    Ex genTrigProduct(Ctx& c); /* Powers of trigonometric functions with few different arguments. */
    Ex genTrigSum(Ctx& c); /* Sums of powers of trigonometric functions. */
    Ex genComposition(Ctx& c); /* Functions of functions. */
    Ex genNumericPowerProduct(Ctx& c); /* n1^q1*n2^q2*... */
    Ex genPowerTower(Ctx& c); /* ((b^e1*c)^e2...)^en */
    Ex genLikeTerms(Ctx& c); /* Sum of terms c_i*t_j with few different t_j. */
    Ex genSameBases(Ctx& c); /* Product of powers of few different bases. */
    Ex genLong(Ctx& c, unsigned maxSyms, bool rational = false, unsigned positivePercent = 40); /* Sums and products with many operands. */
    Ex fracExponent(Ctx& c);
    std::vector<SymInfo> someSymbols(Ctx& c, unsigned n, unsigned positivePercent);
    BigInt genBigInt(Ctx& c, unsigned maxDigits);
    BigInt genInt(Ctx& c, int max);

    /* Ready-made profiles. */
    GenCfg polyCfg(Ctx& c);
    GenCfg rationalCfg(Ctx& c);
    GenCfg radicalCfg(Ctx& c); /* numeric radicals */
    GenCfg powerCfg(Ctx& c); /* symbolic powers with fractional and symbolic exponents */
    GenCfg trigCfg(Ctx& c);
    GenCfg mixedCfg(Ctx& c);
    GenCfg doubleCfg(Ctx& c);
    GenCfg constCfg(Ctx& c); /* no symbols at all */
    GenCfg anyCfg(Ctx& c, std::string* which = nullptr);
}

#endif
