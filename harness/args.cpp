// Command line parsing (C19).
#include "gen.hpp"
#include "linalgcpp.hpp"
using namespace linalgcpp;
using namespace vh;

namespace
{
const char* KEY = "args";
enum Type { INT, LONG, DOUBLE, STRING, BOOL, FLOAT, UNSIGNED };

struct Opt
{
    std::string flag, help, text;
    Type type;
    bool given, bad, twice_given, twice_registered;
    // targets
    int i; long l; double d; std::string s; bool b; float f; unsigned u;
    // expected
    int ei; long el; double ed; std::string es; bool eb; float ef; unsigned eu;
};

void reg(const ArgParser& p, Opt& o)
{
    switch (o.type)
    {
        case INT: p.Parse(o.i, o.flag, o.help); break;
        case LONG: p.Parse(o.l, o.flag, o.help); break;
        case DOUBLE: p.Parse(o.d, o.flag, o.help); break;
        case STRING: p.Parse(o.s, o.flag, o.help); break;
        case BOOL: p.Parse(o.b, o.flag, o.help); break;
        case FLOAT: p.Parse(o.f, o.flag, o.help); break;
        default: p.Parse(o.u, o.flag, o.help); break;
    }
}
std::string fmt(const char* f, double v) { char b[64]; std::snprintf(b, sizeof b, f, v); return b; }

FAMILY(args, "args.parse", 0)
{
    Rng& r = c.r;
    int n = r.range(0, 7);
    std::vector<Opt> opts;
    std::set<std::string> names;
    static const char* stems[] = {"--a", "--b", "--n", "--max-iter", "--tol", "--verbose", "--file", "--ab", "--helper", "--help-me", "--x_y", "--N", "--a-b", "--tolerance", "--1"};
    bool good = true;
    for (int k = 0; k < n; ++k)
    {
        Opt o; o.flag = stems[r.range(0, 14)]; if (r.chance(1, 5)) o.flag += std::to_string(r.range(0, 20));
        if (!names.insert(o.flag).second) continue;
        o.help = r.chance(1, 8) ? "" : "help text " + std::to_string(r.range(100, 999));
        o.type = (Type)r.range(0, 6);
        o.given = r.chance(2, 3); o.bad = o.given && o.type != BOOL && r.chance(1, 12);
        o.twice_given = o.given && r.chance(1, 20); o.twice_registered = r.chance(1, 25);
        o.i = o.ei = r.range(-9, 9); o.l = o.el = r.range(-9, 9); o.d = o.ed = r.uniform(-1, 1); o.s = o.es = "default"; o.b = o.eb = r.chance(1, 2); o.f = o.ef = (float)r.uniform(-1, 1); o.u = o.eu = (unsigned)r.range(0, 9);
        if (o.given && !o.bad && o.type != BOOL && o.type != STRING && r.chance(1, 3))
        {
            // spellings of numbers that deserve attention
            static const char* reals[] = {"-0", "0", "-0.0", "-.5", ".5", "5.", "-5.", "1e5", "-1E-3", "+2.5", "007", "-1", "-9", "1e+10", "0.1", "-0.1", "2", "-123", "1e-5", "000.25"};
            static const char* ints[] = {"-0", "0", "007", "-1", "-9", "-12", "1", "+3", "-007", "00", "2147483647", "-2147483648", "10", "-100"};
            static const char* nats[] = {"0", "007", "+3", "1", "00", "4294967295", "10"};
            if (o.type == DOUBLE || o.type == FLOAT) { o.text = reals[r.range(0, 19)]; o.ed = o.type == DOUBLE ? std::strtod(o.text.c_str(), nullptr) : o.ed; o.ef = o.type == FLOAT ? std::strtof(o.text.c_str(), nullptr) : o.ef; }
            else if (o.type == INT) { o.text = ints[r.range(0, 13)]; o.ei = std::atoi(o.text.c_str()); }
            else if (o.type == LONG) { o.text = ints[r.range(0, 13)]; o.el = std::atol(o.text.c_str()); }
            else { o.text = nats[r.range(0, 6)]; o.eu = (unsigned)std::strtoul(o.text.c_str(), nullptr, 10); }
            count("unusual spelling of a number");
        }
        else if (o.given && !o.bad)
            switch (o.type)
            {
                case INT: o.ei = r.chance(1, 6) ? (r.chance(1, 2) ? INT_MAX : INT_MIN) : r.range(-100000, 100000); o.text = std::to_string(o.ei); if (o.ei > 0 && r.chance(1, 8)) o.text = "+" + o.text; break;
                case LONG: o.el = (long)r.next(); o.text = std::to_string(o.el); break;
                case DOUBLE: o.ed = r.chance(1, 3) ? r.range(-99, 99) : std::ldexp(r.uniform(-1, 1), r.range(-300, 300)); o.text = fmt(r.chance(1, 2) ? "%.17g" : "%.17e", o.ed); break;
                case FLOAT: o.ef = (float)r.uniform(-9, 9); o.text = fmt("%.9g", o.ef); break;
                case UNSIGNED: o.eu = (unsigned)r.range(0, INT_MAX); o.text = std::to_string(o.eu); break;
                case STRING:
                {
                    static const char* ss[] = {"x", "-5", "-", "a b c", " lead", "path/to/file.txt", "=", "-f", "1e5", "trail ", "h\xc3\xa9", "two  spaces", "-help", "help", "-0", "-1", "0", "-9", "-a", "-v", "1", "a--b", "x--help"};
                    o.es = o.text = ss[r.range(0, 22)]; break;
                }
                case BOOL: o.eb = !o.eb; break;
            }
        if (o.bad)
        {
            static const char* num[] = {"abc", "5x", "", "1 2", ".", "5,5", "0x1G"};
            static const char* integral[] = {"1.5", "1e3", "99999999999999999999999", "7-"};
            static const char* real[] = {"1.5.2", "1e400", "3,4", "1e"};
            if (o.type == STRING) o.text = "";
            else if (r.chance(1, 2)) o.text = (o.type == DOUBLE || o.type == FLOAT) ? real[r.range(0, 3)] : integral[r.range(0, 3)];
            else o.text = num[r.range(0, 6)];
            good = false;
        }
        if (o.twice_given || o.twice_registered) good = false;
        opts.push_back(o);
    }
    // the command line
    std::vector<std::vector<std::string>> groups;
    for (auto& o : opts)
        for (int k = 0; k < (o.given ? 1 + o.twice_given : 0); ++k)
        {
            std::vector<std::string> g(1, o.flag);
            if (o.type != BOOL && !o.text.empty()) g.push_back(o.text);
            groups.push_back(g);
        }
    for (int k = r.chance(1, 4) ? r.range(1, 2) : 0; k > 0; --k) { std::vector<std::string> g(1, "--unknown" + std::to_string(k)); if (r.chance(1, 2)) g.push_back("17"); groups.push_back(g); }
    bool help = r.chance(1, 10); if (help) good = false;
    const std::vector<Opt> initial = opts;
    c.mix(groups.size()); c.nontrivial = groups.size() > 1;
    c.describe("%zu options, %zu on the command line%s, %s", opts.size(), groups.size(), help ? " with --help" : "", good ? "good" : "bad");
    for (int order = 0; order < 2; ++order) // the order of the options does not matter
    {
        opts = initial;
        r.shuffle(groups);
        std::vector<std::string> words(1, "prog");
        for (auto& g : groups) for (auto& w : g) words.push_back(w);
        if (help) words.insert(words.begin() + r.range(1, (int)words.size()), "--help");
        for (auto& w : words) c.mix(hash_str(w.c_str()));
        std::vector<const char*> argv; for (auto& w : words) argv.push_back(w.c_str());
        argv.push_back(nullptr);
        const std::vector<std::string> before(words);
        STEP("constructor"); ArgParser first((int)words.size(), argv.data());
        ArgParser p(first);
        // the parser keeps no reference to the command line
        for (size_t k = 1; k < words.size(); ++k) for (char& ch : words[k]) ch = '#';
        STEP("Parse");
        if (order) r.shuffle(opts);
        for (auto& o : opts) { reg(p, o); if (o.twice_registered) { Opt again = o; reg(p, again); } }
        for (auto& o : opts)
        {
            if (o.twice_given || o.bad) continue; // an error; what the variable holds is not specified
            bool ok = o.i == o.ei && o.l == o.el && o.s == o.es && o.b == o.eb && o.u == o.eu && o.f == o.ef && o.d == o.ed;
            CHECK(ok, KEY, "%s given as '%s' (%s, %s): int %d want %d, long %ld want %ld, double %.17g want %.17g, string '%s' want '%s', bool %d want %d, unsigned %u want %u, float %g want %g", o.flag.c_str(), o.text.c_str(), o.given ? "given" : "not given", o.bad ? "malformed" : "well formed",
                  o.i, o.ei, o.l, o.el, o.d, o.ed, o.s.c_str(), o.es.c_str(), o.b, o.eb, o.u, o.eu, o.f, o.ef);
            count("option checked");
        }
        STEP("IsGood");
        CHECK(p.IsGood() == good, "args-good", "IsGood is %d, expected %d", p.IsGood(), good);
        STEP("ShowErrors");
        std::ostringstream e; p.ShowErrors(e);
        std::string es = e.str();
        bool any = false;
        for (auto& o : opts)
            if (o.bad || o.twice_given || o.twice_registered) { any = true; CHECK(es.find(o.flag) != std::string::npos, "args-text", "the error text does not name %s: %s", o.flag.c_str(), es.c_str()); }
        if (!any) CHECK(es.empty(), "args-text", "errors shown for a correct command line: %s", es.c_str());
        STEP("ShowHelp");
        std::ostringstream h; p.ShowHelp(h);
        for (auto& o : opts) CHECK(h.str().find(o.flag) != std::string::npos && h.str().find(o.help) != std::string::npos, "args-text", "the help text does not show %s: %s", o.flag.c_str(), h.str().c_str());
        STEP("ShowOptions");
        std::ostringstream so; p.ShowOptions(so);
        std::istringstream lines(so.str());
        std::map<std::string, std::string> shown;
        for (std::string l; std::getline(lines, l);) { std::istringstream w(l); std::string a; if (w >> a) shown[a] = l; }
        for (auto& o : opts)
        {
            CHECK(shown.count(o.flag), "args-text", "the option list does not show %s", o.flag.c_str());
            std::string v; if (o.type == INT) v = std::to_string(o.i); if (o.type == LONG) v = std::to_string(o.l); if (o.type == STRING) v = o.s; if (o.type == BOOL) v = o.b ? "true" : "false"; if (o.type == UNSIGNED) v = std::to_string(o.u);
            if (!o.twice_registered) CHECK(shown[o.flag].find(v) != std::string::npos, "args-text", "the option list shows '%s', the value of %s is '%s'", shown[o.flag].c_str(), o.flag.c_str(), v.c_str());
        }
        CHECK(p.IsGood() == good, "args-good", "IsGood changed to %d after printing", p.IsGood());
        // nothing was registered or wrong with the copy's source
        std::ostringstream h1; first.ShowHelp(h1);
        for (auto& o : opts) if (!o.help.empty()) CHECK(h1.str().find(o.help) == std::string::npos, KEY, "registering with a copy changed the original parser");
    }
}
} // namespace
