// C01: automatic simplification during construction keeps the value.
#include "../expr.h"

using namespace vf;
using tsym::Var;

namespace {
    void check(Ctx& c, const Ex& e)
    {
        c.input(show(e));
        if (estTerms(e) > 300)
            c.discard("too many terms");
        if (!inNumericRange(e))
            c.discard("constants out of range");
        if (doubleRisk(e) > 9)
            c.discard("double coefficients out of range");
        const Var v = build(e);
        ValueOpts o;
        o.points = 3;
        const unsigned n = checkValue(c, "value", e, v, o);
        c.nontrivial(n > 0 && countNodes(e) >= 4 && show(e) != str(v));
    }

    void construct(Ctx& c)
    {
        std::string profile;
        const GenCfg g = anyCfg(c, &profile);
        c.label("profile:" + profile);
        check(c, gen(c, g, static_cast<unsigned>(c.range(2, c.chance(15) ? 40 : 18))));
    }
    void trigProducts(Ctx& c)
    {
        check(c, genTrigProduct(c));
    }
    void trigSums(Ctx& c)
    {
        check(c, genTrigSum(c));
    }
    void compositions(Ctx& c)
    {
        check(c, genComposition(c));
    }
    void numericPowers(Ctx& c)
    {
        check(c, genNumericPowerProduct(c));
    }
    void towers(Ctx& c)
    {
        check(c, genPowerTower(c));
    }
    void likeTerms(Ctx& c)
    {
        check(c, genLikeTerms(c));
    }
    void longLists(Ctx& c)
    {
        check(c, genLong(c, 10));
    }
    void sameBases(Ctx& c)
    {
        check(c, genSameBases(c));
    }
}

Property vf::makeProperty()
{
    Property p;
    p.id = "C01";
    p.rule = "the recipe has at least 4 nodes, differs from its printed result and was compared at one or more points where it "
             "has a value";
    p.beforeCase = resetLibrary;
    p.findingProbes["log-even-power"] = [] {
        const Var a("a");
        const Var v = tsym::pow(tsym::euler(), tsym::log(tsym::sqrt(a * a)));
        return v == a ? std::string("e^log(sqrt(a^2)) is simplified to a") : std::string();
    };
    p.suites.push_back({"construct", 100000, 4000000, construct});
    p.suites.push_back({"trig-products", 30000, 800000, trigProducts});
    p.suites.push_back({"trig-sums", 30000, 600000, trigSums});
    p.suites.push_back({"compositions", 40000, 800000, compositions});
    p.suites.push_back({"numeric-powers", 40000, 800000, numericPowers});
    p.suites.push_back({"power-towers", 40000, 800000, towers});
    p.suites.push_back({"like-terms", 40000, 800000, likeTerms});
    p.suites.push_back({"long", 40000, 800000, longLists});
    p.suites.push_back({"same-bases", 40000, 800000, sameBases});
    return p;
}
