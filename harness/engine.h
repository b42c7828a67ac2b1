// Property-based testing engine: choice-tape generation, forked workers, shrinking, replay, evidence.
#ifndef VF_ENGINE_H
#define VF_ENGINE_H

#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vf {
    struct Fail {
        std::string tag;
        std::string msg;
        std::string knownId;
    };
    struct Discard {
        std::string reason;
    };

    /* Every random decision of a case goes through this class. Values are recorded on a tape, so that any case can be
     * replayed and shrunk: missing tape entries read as 0, which by convention is the simplest alternative. */
    class Ctx {
      public:
        Ctx(uint64_t seed, bool useRng);
        void setTape(std::vector<uint32_t> t);

        uint32_t draw(uint32_t n); /* Uniform in [0, n), 0 is simplest. */
        int range(int lo, int hi); /* Uniform in [lo, hi], lo is simplest. */
        bool chance(unsigned percent); /* false is simplest. */
        unsigned weighted(std::initializer_list<unsigned> weights); /* Index; 0 is simplest. */
        unsigned weighted(const std::vector<unsigned>& weights);
        uint64_t bits64();
        template <class T> const T& pick(const std::vector<T>& v)
        {
            return v[draw(static_cast<uint32_t>(v.size()))];
        }

        [[noreturn]] void fail(const std::string& tag, const std::string& msg);
        [[noreturn]] void discard(const std::string& reason);
        void require(bool cond, const char* tag, const std::function<std::string()>& msg)
        {
            if (!cond)
                fail(tag, msg());
        }
        /* A failure that is an instance of the given, documented finding. */
        void known(const std::string& id, const std::string& msg);

        void label(const std::string& name);
        void nontrivial(bool yes = true)
        {
            isNontrivial = isNontrivial || yes;
        }
        void input(const std::string& text)
        {
            inputText += inputText.empty() ? text : "; " + text;
            publishInput();
        }
        void publishInput() const; /* Keeps the text available if the process crashes. */

        std::vector<uint32_t> tape;
        size_t pos = 0;
        bool isNontrivial = false;
        std::string inputText;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, std::string> knownHits;
        uint64_t checks = 0;
        char* live = nullptr;
        size_t liveSize = 0;

      private:
        uint64_t next();
        uint64_t state[4];
        bool useRng;
    };

    struct Suite {
        std::string name;
        uint64_t quickCases;
        uint64_t thoroughCases;
        std::function<void(Ctx&)> run;
    };

    struct Property {
        std::string id;
        std::string rule; /* What counts as non-trivial. */
        std::vector<Suite> suites;
        std::vector<std::string> assumptions;
        double caseCpuSeconds = 20;
        bool timeoutIsViolation = false;
        std::function<void()> beforeCase; /* Reset of global library state. */
        /* Specific inputs of listed findings, id -> check, which returns an empty string if the finding is gone. */
        std::map<std::string, std::function<std::string()>> findingProbes;
    };

    Property makeProperty(); /* Defined by each property. */

    uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull);
    std::string jsonEscape(const std::string& s);
}

#endif
