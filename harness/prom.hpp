// The Prometheus text format, read strictly, and what the publisher should write for a registry
#ifndef PROM_HPP
#define PROM_HPP

#include <locale>
#include <sstream>
#include "regs.hpp"
#include "opts.hpp"
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>

namespace prom
{
using namespace regs;
using Labels = std::map<std::string, std::string>;

struct Line
{
    char kind; // H, T, S: help, type, sample
    std::string name, text; // of a help or type, or the value
    Labels labels;
    ld number = 0;
};

inline bool name_start(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
inline bool name_char(char c) { return name_start(c) || (c >= '0' && c <= '9'); }

// fails on anything that isn't the format
inline std::vector<Line> parse(pbt::Ctx& ctx, const std::string& text)
{
    std::vector<Line> lines;
    CHECK_THAT(ctx, text.empty() || text.back() == '\n', "the output doesn't end with a newline");
    std::size_t at = 0;
    while (at < text.size())
    {
        auto end = text.find('\n', at);
        std::string l = text.substr(at, end - at);
        at = end + 1;
        std::size_t i = 0;
        auto bad = [&](const char* what) { ctx.fail(std::string(what) + ": " + pbt::quote(l)); };
        auto name = [&](bool colons) {
            auto from = i;
            while (i < l.size() && (name_char(l[i]) || (colons && l[i] == ':')))
                ++i;
            if (i == from || (l[from] >= '0' && l[from] <= '9'))
                bad(colons ? "illegal metric name" : "illegal label name");
            return l.substr(from, i - from);
        };
        Line r;
        if (l.compare(0, 7, "# HELP ") == 0 || l.compare(0, 7, "# TYPE ") == 0)
        {
            r.kind = l[2];
            i = 7;
            r.name = name(true);
            if (i >= l.size() || l[i] != ' ')
                bad("no text after the name");
            ++i;
            for (; i < l.size(); i++)
            {
                if (l[i] != '\\' || r.kind == 'T')
                    r.text += l[i];
                else if (++i < l.size() && (l[i] == '\\' || l[i] == 'n'))
                    r.text += l[i] == 'n' ? '\n' : '\\';
                else
                    bad("illegal escape");
            }
            if (r.kind == 'T' && r.text != "counter" && r.text != "gauge" && r.text != "summary" && r.text != "histogram" && r.text != "untyped")
                bad("illegal type");
        }
        else if (!l.empty() && l[0] == '#')
            continue;
        else
        {
            r.kind = 'S';
            r.name = name(true);
            if (i < l.size() && l[i] == '{')
            {
                ++i;
                while (i < l.size() && l[i] != '}')
                {
                    auto n = name(false);
                    if (l.compare(i, 2, "=\"") != 0)
                        bad("no quoted value after the label name");
                    i += 2;
                    std::string v;
                    for (;; i++)
                    {
                        if (i >= l.size())
                            bad("unterminated label value");
                        if (l[i] == '"')
                            break;
                        if (l[i] != '\\')
                            v += l[i];
                        else
                        {
                            if (++i >= l.size() || (l[i] != '\\' && l[i] != '"' && l[i] != 'n'))
                                bad("illegal escape");
                            v += l[i] == 'n' ? '\n' : l[i];
                        }
                    }
                    ++i;
                    if (!r.labels.emplace(n, v).second)
                        bad("repeated label");
                    if (i < l.size() && l[i] == ',')
                        ++i;
                    else if (i >= l.size() || l[i] != '}')
                        bad("neither a comma nor the end after a label");
                }
                if (i >= l.size())
                    bad("unterminated labels");
                ++i;
            }
            if (i >= l.size() || l[i] != ' ')
                bad("no value");
            ++i;
            r.text = l.substr(i);
            if (r.text.empty() || r.text.find_first_not_of("0123456789.+-e") != std::string::npos)
                bad("illegal number");
            char* e;
            r.number = std::strtold(r.text.c_str(), &e);
            if (*e)
                bad("illegal number");
        }
        lines.push_back(r);
    }
    return lines;
}

inline std::string clean(const std::string& s)
{
    std::string r;
    for (char c : s)
        r += name_char(c) ? c : '_';
    return r;
}
inline bool digit(char c) { return c >= '0' && c <= '9'; }
inline std::string metric_name(const Parts& p)
{
    std::string r;
    for (auto& c : p)
        r += (r.empty() ? "" : ":") + clean(c);
    return (digit(r[0]) ? "_" : "") + r;
}
inline std::string label_name(const std::string& t) { return (t.empty() || digit(t[0]) ? "_" : "") + clean(t); }
inline Labels labels_of(const Tags& t)
{
    Labels l;
    for (auto& e : t)
        l[label_name(e.first)] = e.second.text();
    return l;
}

// -- a registry whose metrics have distinct names and labels
inline std::string wild(pbt::Ctx& ctx)
{
    static const char alphabet[] = "a0b1_\"\\\n:{},= #/.-Z\t\r'n\xc3\xa4\x80\xff";
    std::string s;
    auto n = ctx.chance(1, 15) ? ctx.size(400) : ctx.size(12);
    for (std::size_t i = 0; i < n; i++)
        s += ctx.chance(1, 12) ? static_cast<char>(ctx.below(256)) : alphabet[ctx.below(sizeof alphabet - 1)];
    return s;
}

// Publishes into a stream that was left in some state: formatting flags, a precision, a locale with
// its own decimal point and grouping. The text must not depend on it, nor the state on the publishing.
struct Punctuation : std::numpunct<char>
{
    char point, separator;
    std::string groups;
    Punctuation(char p, char s, std::string g) : point(p), separator(s), groups(std::move(g)) { }
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return separator; }
    std::string do_grouping() const override { return groups; }
};
template<typename Publisher>
std::string write_with(pbt::Ctx& ctx, Publisher& publisher)
{
    std::ostringstream out;
    auto flags = out.flags();
    if (ctx.chance(1, 3))
    {
        static const std::ios_base::fmtflags bases[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct};
        static const std::ios_base::fmtflags floats[] = {std::ios_base::fmtflags(), std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific};
        static const std::ios_base::fmtflags others[] = {std::ios_base::showpos, std::ios_base::showbase, std::ios_base::showpoint, std::ios_base::uppercase};
        out.setf(bases[ctx.below(3)], std::ios_base::basefield);
        out.setf(floats[ctx.below(4)], std::ios_base::floatfield);
        for (auto f : others)
            if (ctx.chance(1, 4))
                out.setf(f);
        out.precision(static_cast<std::streamsize>(ctx.below(20)));
        if (ctx.coin())
            out.imbue(std::locale(std::locale::classic(), new Punctuation(ctx.coin() ? ',' : '.', ctx.coin() ? '.' : ' ', ctx.coin() ? "\3" : ctx.coin() ? "\1" : "")));
        flags = out.flags();
        ctx.label("stream in another state");
        TRACE(ctx, "the stream has flags ", static_cast<long>(flags), ", precision ", out.precision(), ", decimal point ", std::use_facet<std::numpunct<char>>(out.getloc()).decimal_point(), " and groups ", pbt::quote(std::use_facet<std::numpunct<char>>(out.getloc()).grouping()));
    }
    auto precision = out.precision();
    auto locale = out.getloc();
    publisher.write(out);
    CHECK_THAT(ctx, out.flags() == flags && out.precision() == precision && out.getloc() == locale, "publishing changed the state of the stream");
    return out.str();
}

struct PromWorld : World
{
    std::map<std::string, Parts> names;
    std::map<Parts, std::map<Labels, Tags>> labels;
    opts::All4 registry_options;
    std::map<Parts, opts::All4> metric_options;
    std::size_t adversarial = 0;

    PromWorld(pbt::Ctx& ctx, std::size_t npaths, std::size_t ntags, std::size_t nkinds, bool wildly) : World(ctx, npaths, ntags, nkinds, true)
    {
        if (!wildly)
            return;
        for (auto& p : paths)
            for (auto& c : p)
                if (ctx.coin())
                {
                    c = wild(ctx);
                    if (c.empty())
                        c = "x";
                }
        for (auto& t : tagsets)
        {
            Tags n;
            for (auto& e : t)
            {
                auto v = e.second;
                if (ctx.coin())
                    v = TagValue{'s', 0, no_number(wild(ctx))};
                n[ctx.coin() ? wild(ctx) : e.first] = v;
            }
            if (ctx.chance(1, 10)) // very many
            {
                auto more = ctx.size(60);
                for (std::size_t i = 0; i < more; i++)
                    n.emplace("more" + std::to_string(i), TagValue{'s', 0, ctx.coin() ? no_number(wild(ctx)) : "plain"});
            }
            t = n;
        }
    }
    // as far as the names alone go
    bool admissible(const Parts& p, const Tags& asked)
    {
        auto t = treated(asked);
        if (p.empty())
            return true;
        auto n = metric_name(p);
        for (auto& o : names)
            if (o.second != p)
                for (auto s : {"", "_count", "_mean", ":rates"})
                    if (o.first + s == n || n + s == o.first)
                        return false;
        auto l = labels_of(t);
        if (l.size() != t.size() || l.count("quantile") || l.count("window"))
            return false;
        auto& of = labels[p];
        auto f = of.find(l);
        if (f != of.end())
            return f->second == t;
        of[l] = t;
        names[n] = p;
        return true;
    }
    void step()
    {
        switch (ctx.below(10))
        {
            case 0: case 1: case 2: case 3:
            {
                auto p = any_path();
                auto t = any_tags();
                if (!admissible(p, t))
                    break;
                if (ctx.chance(1, 3))
                    register_existing(p, t, any_kind());
                else
                    request(p, t, any_kind());
                break;
            }
            case 4: case 5: case 6: case 7:
                if (auto x = any())
                {
                    auto n = 1 + ctx.below(4);
                    while (n--)
                        operate(*x);
                }
                break;
            case 8:
            {
                auto s = subj::step(ctx);
                TRACE(ctx, s, " ns pass");
                vclock::advance(s);
                break;
            }
            default:
                set_options();
        }
    }
    void set_options()
    {
        if (ctx.chance(1, 3))
        {
            TRACE(ctx, "options for the registry");
            reg.publish_options(opts::make_options(ctx, registry_options));
        }
        else
        {
            auto p = any_path();
            TRACE(ctx, "options for ", show(p));
            opts::All4 w;
            auto o = opts::make_options(ctx, w);
            reg.publish_options(path(ctx, p), std::move(o));
            if (model.count(p))
                metric_options[p] = w;
        }
    }
    const opts::All4& effective(const Parts& p)
    {
        auto f = metric_options.find(p);
        return f == metric_options.end() ? registry_options : f->second;
    }
    std::string write()
    {
        cxxmetrics_prometheus::prometheus_publisher<Repository> publisher(reg);
        return write_with(ctx, publisher);
    }
};

// what is expected of one snapshot
struct Series
{
    std::string name;
    Labels labels;
    ld value;
    ld slack;
    bool exact; // a whole number, unscaled
};
inline std::ostream& operator<<(std::ostream& o, const Series& s)
{
    o << s.name << '{';
    for (auto& l : s.labels)
        o << l.first << '=' << pbt::quote(l.second) << ',';
    return o << "} " << s.value;
}

inline std::string window_name(std::chrono::nanoseconds d)
{
    static const std::pair<int64_t, const char*> units[] = {{3600000000000ll, "hr"}, {60000000000ll, "min"}, {1000000000ll, "sec"}, {1000000ll, "msec"}, {1000ll, "usec"}};
    for (auto& u : units)
        if (d.count() >= u.first && d.count() % u.first == 0)
            return std::to_string(d.count() / u.first) + u.second;
    return std::to_string(d.count()) + "nsec";
}
inline ld value_at(const reservoir_snapshot& s, ld percent)
{
    using opts::pc;
#define PROM_AT(p) if (percent == p##l) return static_cast<ld>(s.value<pc(p##l)>())
    PROM_AT(0.); PROM_AT(10.); PROM_AT(25.); PROM_AT(50.); PROM_AT(75.); PROM_AT(90.); PROM_AT(95.); PROM_AT(98.); PROM_AT(99.); PROM_AT(99.9); PROM_AT(99.9999); PROM_AT(99.9999999); PROM_AT(100.);
#undef PROM_AT
    abort();
}

inline std::string percent_text(ld p)
{
    char t[64];
    snprintf(t, sizeof(t), "%.12Lf", p);
    return t;
}

struct Render : Receiver
{
    std::string name;
    Labels labels;
    const opts::All4* o;
    std::vector<Series> out;
    char kind = 0;
    bool quantile_labels = false; // the label of a quantile is compared as a number

    void add(std::string suffix, const char* label, std::string text, ld v, const opts::Scale& s, ld slack, bool whole)
    {
        Series x{name + suffix, labels, v, slack, whole && !s.apply};
        if (label)
            x.labels[label] = text;
        if (s.apply)
        {
            x.value *= static_cast<ld>(s.factor);
            x.slack *= std::fabs(static_cast<ld>(s.factor));
        }
        x.slack = x.slack * 1.000001l + 0.51e-6l + 1e-12l * std::fabs(x.value);
        out.push_back(x);
    }
    void reservoir(const histogram_snapshot& s, const opts::Want& w, bool micro)
    {
        auto scaled = [&](ld v) { return micro ? v / 1000 : v; };
        ld slack = micro ? 1.001l : 0; // cut off to whole microseconds
        if (w.count)
            add("_count", nullptr, "", static_cast<ld>(s.count()), w.scale, 0, true);
        add("_mean", nullptr, "", scaled(static_cast<ld>(s.mean())), w.scale, slack, false);
        for (auto p : opts::sets[w.set].percents)
            add("", "quantile", percent_text(p), scaled(value_at(s, p)), w.scale, slack, false);
    }
    void rates(const meter_snapshot& s, const opts::Want& w, const char* suffix)
    {
        if (w.mean)
            add(suffix, "window", "mean", static_cast<ld>(s.value()), w.scale, 0, false);
        for (auto& r : s)
            add(suffix, "window", window_name(std::chrono::duration_cast<std::chrono::nanoseconds>(r.first)), static_cast<ld>(r.second), w.scale, 0, false);
    }
    void got(const cumulative_value_snapshot& s) override
    {
        kind = 'S';
        add("", nullptr, "", static_cast<ld>(s.value()), o->value.scale, 0, false);
    }
    void got(const average_value_snapshot& s) override
    {
        kind = 'A';
        add("", nullptr, "", static_cast<ld>(s.value()), o->value.scale, 0, false);
    }
    void got(const meter_snapshot& s) override
    {
        kind = 'M';
        rates(s, o->meter, "");
    }
    void got(const histogram_snapshot& s) override
    {
        kind = 'H';
        reservoir(s, o->histogram, false);
    }
    void got(const timer_snapshot& s) override
    {
        kind = 'T';
        reservoir(s, o->timer, true);
        if (o->timer.rates)
            rates(s.rate(), o->timer, ":rates");
    }
};

inline bool same_labels(const Labels& got, const Labels& want)
{
    if (got.size() != want.size())
        return false;
    for (auto& l : want)
    {
        auto f = got.find(l.first);
        if (f == got.end())
            return false;
        if (l.first == "quantile")
        {
            char* e;
            auto q = std::strtold(f->second.c_str(), &e);
            if (*e || f->second.empty() || std::fabs(q * 100 - std::strtold(l.second.c_str(), nullptr)) > 0.9e-7l)
                return false;
        }
        else if (f->second != l.second)
            return false;
    }
    return true;
}

// every series that is expected, once, and no others
inline void check_series(pbt::Ctx& ctx, const std::vector<Line>& lines, const std::vector<Series>& want)
{
    std::vector<bool> used(lines.size(), false);
    std::set<std::pair<std::string, Labels>> distinct;
    std::multimap<std::pair<std::string, Labels>, std::size_t> alike;
    auto without_quantile = [](Labels l) {
        l.erase("quantile");
        return l;
    };
    for (std::size_t i = 0; i < lines.size(); i++)
        if (lines[i].kind == 'S')
        {
            CHECK_THAT(ctx, distinct.emplace(lines[i].name, lines[i].labels).second, "two series ", Series{lines[i].name, lines[i].labels, lines[i].number, 0, false});
            alike.emplace(std::make_pair(lines[i].name, without_quantile(lines[i].labels)), i);
        }
    for (auto& w : want)
    {
        // of labels that compare equal, the one closest in value is it
        bool found = false;
        auto take = [&](std::size_t i) {
            auto& l = lines[i];
            found = used[i] = true;
            CHECK_THAT(ctx, std::fabs(l.number - w.value) <= w.slack, "series ", w, " is published as ", l.text);
            if (w.exact)
                CHECK_THAT(ctx, l.number == w.value, "series ", w, " is published as ", l.text);
        };
        auto r = alike.equal_range(std::make_pair(w.name, without_quantile(w.labels)));
        for (auto j = r.first; j != r.second && !found; ++j)
            if (!used[j->second] && same_labels(lines[j->second].labels, w.labels))
                take(j->second);
        CHECK_THAT(ctx, found, "series ", w, " is missing");
    }
    for (std::size_t i = 0; i < lines.size(); i++)
        CHECK_THAT(ctx, used[i] || lines[i].kind != 'S', "series ", Series{lines[i].name, lines[i].labels, lines[i].number, 0, false}, " came out of nowhere");
}

inline std::vector<Series> expected(PromWorld& w)
{
    std::vector<Series> want;
    for (auto& e : w.model)
    {
        if (e.first.empty())
        {
            // it isn't published, but its neighbours are
            continue;
        }
        for (auto& i : e.second.by_tags)
        {
            Render r;
            r.name = metric_name(e.first);
            r.labels = labels_of(i.first);
            r.o = &w.effective(e.first);
            i.second.twin->snapshot(r);
            want.insert(want.end(), r.out.begin(), r.out.end());
        }
    }
    return want;
}

}

#endif
