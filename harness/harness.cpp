// Script interpreter over the public C++ API of STLRom.
//
// Input: lines of TAB separated fields (%XX escapes), one call per line; the
// line "ep <n>" starts an episode.  Every episode runs in a child process, so
// that a crash or a hang is an observation like any other.
// Output: one JSON line per call, {"r": <result>}; results are what the call
// returned, or {"x": "<kind>"} for an exception.  An episode that dies yields
// one line {"crash": "<how>"} for the call that was running.
#include "stl_driver.h"
#include "stl_monitor.h"
#include "signal.h"
#include "tools.h"
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

using namespace STLRom;
using std::string;
using std::vector;

typedef vector<string> Fields;

static string unesc(const string &s) {
    string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == '%' && i + 2 < s.size()) {
            o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
            i += 2;
        } else o += s[i];
    return o;
}
static double num(const string &s) { return strtod(s.c_str(), nullptr); }

// [n, d, 0]: exactly n/d; [n, d, 1]: n/d within 1/d; [0, 1, 2]: not a usable number
static string jd(double v) {
    std::ostringstream o;
    if (!std::isfinite(v) || std::fabs(v) >= 1e6 || (std::fabs(v) >= 1e5 && std::floor(v * 2048) != v * 2048)) { o << "[" << (v > 0 ? 1 : v < 0 ? -1 : 0) << ",1,2]"; return o.str(); }
    for (long d = 1; d <= 2048; d *= 2)
        if (std::floor(v * d) == v * d) { o << "[" << (long)(v * d) << "," << d << ",0]"; return o.str(); }
    o << "[" << std::lround(v * 4096) << ",4096,1]";
    string r = o.str();
    // lowest terms are not needed for approximations
    return r;
}
// the units the calls of this episode use
static double KT = 1, KV = 1, OT = 0, BIGM = 0;
static string jt(double t) { return jd(t / KT - OT); }
static string jv(double v) { return jd(v / KV); }
static string jp(const string &n, double v) { return n.size() == 1 && strchr("abcvw", n[0]) ? jd(v / KT) : jv(v); }
static string js(const string &s) {
    string o = "\"";
    char b[8];
    for (unsigned char c : s)
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    return o + "\"";
}
template <class It, class F> static string jl(It b, It e, F f) {
    string o = "[";
    for (It i = b; i != e; ++i) { if (i != b) o += ","; o += f(*i); }
    return o + "]";
}
static string jdata(const trace_data &d) {
    return jl(d.begin(), d.end(), [](const vector<double> &r) { return jl(r.begin(), r.end(), [&](const double &x) { return &x == &r[0] ? jt(x) : jv(x); }); });
}
static string jmap(const std::map<string, double> &m) {
    return jl(m.begin(), m.end(), [](const std::pair<const string, double> &p) { return "[" + js(p.first) + "," + jp(p.first, p.second) + "]"; });
}
// a signal on [lo, hi]: its ends and its pieces (start, value there, limit at the end of the piece)
static string jsig(const Signal &s, double lo = -HUGE_VAL, double hi = HUGE_VAL) {
    string p = "[";
    double e = std::min(hi, s.endTime);
    for (size_t i = 0; i < s.size(); i++) {
        double t = s[i].time, n = i + 1 < s.size() ? s[i + 1].time : e;
        if (t > e || (n <= lo && i + 1 < s.size() && n < e)) continue;
        n = std::min(n, e);
        double a = std::max(t, lo);
        p += (p.size() > 1 ? string(",") : string()) + "[" + jt(a) + "," + jv(s[i].valueAt(a)) + "," + jv(s[i].valueAt(n)) + "]";
    }
    return "{\"b\":" + jt(s.beginTime) + ",\"e\":" + jt(s.endTime) + ",\"p\":" + p + "]}";
}

struct World {
    std::map<string, std::unique_ptr<STLDriver>> D;
    std::map<string, std::unique_ptr<STLMonitor>> M;
    std::map<string, Signal> S;
};

static vector<double> row(const Fields &f, size_t k) {
    vector<double> r;
    for (; k < f.size(); k++) r.push_back(num(f[k]));
    return r;
}

static vector<double> csv(const string &t) {
    vector<double> r;
    std::stringstream i(t);
    for (string x; std::getline(i, x, ',');) r.push_back(num(x));
    return r;
}

static string slurp(const string &fn) {
    std::ifstream i(fn.c_str());
    std::stringstream b;
    b << i.rdbuf();
    return b.str();
}

// the answer of a process that has done nothing else
static string fresh(const Fields &f) {
    int p[2];
    if (pipe(p)) _exit(98);
    pid_t c = fork();
    if (c == 0) {
        close(p[0]);
        alarm(20);
        string r;
        try {
            STLDriver d;
            d.parse_string(unesc(f[1]));
            std::stringstream ss(f[2]);
            string x;
            while (std::getline(ss, x, ';')) {
                vector<double> v;
                std::stringstream rs(x);
                string y;
                while (std::getline(rs, y, ',')) v.push_back(num(y));
                d.add_sample(v);
            }
            d.set_semantics(f[3]);
            d.set_interpol(f[4]);
            auto o = d.get_online_rob(f[5], num(f[6]));
            r = jl(o.begin(), o.end(), jv);
        } catch (const std::exception &) { r = "{\"x\":\"exception\"}"; }
        if (write(p[1], r.data(), r.size()) < 0) _exit(97);
        _exit(0);
    }
    close(p[1]);
    string r;
    char b[4096];
    ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    return r.empty() ? "{\"x\":\"crash\"}" : r;
}

static string call(World &w, const Fields &f) {
    const string &op = f[0];
    auto d = [&](size_t i) -> STLDriver & { return *w.D.at(f[i]); };
    auto m = [&](size_t i) -> STLMonitor & { return *w.M.at(f[i]); };
    auto s = [&](size_t i) -> Signal & { return w.S[f[i]]; };
    auto B = [](bool b) { return string(b ? "true" : "false"); };
    const string ok = "\"ok\"";
    // drivers
    if (op == "new")    { w.D[f[1]].reset(new STLDriver()); return ok; }
    if (op == "parse")  return B(d(1).parse_string(unesc(f[2])));
    if (op == "parsef") return B(d(1).parse_file(unesc(f[2])));
    if (op == "add")    { d(1).add_sample(row(f, 2)); return ok; }
    if (op == "setp")   { d(1).set_param(f[2], num(f[3])); return ok; }
    if (op == "getp")   return jp(f[2], d(1).get_param(f[2]));
    if (op == "sem")    { d(1).set_semantics(f[2]); return ok; }
    if (op == "itp")    { d(1).set_interpol(f[2]); return ok; }
    if (op == "eval")   { auto r = f.size() > 3 ? d(1).get_online_rob(f[2], num(f[3])) : d(1).get_online_rob(f[2]);
                          return jl(r.begin(), r.end(), jv); }
    if (op == "mon")    { w.M[f[1]].reset(new STLMonitor(d(2).get_monitor(f[3]))); if (OT) m(1).set_eval_time(OT * KT, OT * KT); return ok; }
    if (op == "copy")   { w.D[f[1]].reset(new STLDriver(d(2))); return ok; }
    if (op == "assign") { d(1) = d(2); return ok; }
    if (op == "move")   { w.D[f[1]].reset(new STLDriver(std::move(d(2)))); w.D.erase(f[2]); return ok; }
    if (op == "massign"){ d(1) = std::move(d(2)); w.D.erase(f[2]); return ok; }
    if (op == "del")    { w.D.erase(f[1]); return ok; }
    if (op == "clear")  { d(1).clear(); return ok; }
    if (op == "bigm")   { Signal::set_BigM(num(f[1])); return ok; }
    if (op == "getbig") return jv(Signal::get_BigM());
    if (op == "names")  return js(d(1).get_signals_names());
    if (op == "show" || op == "mshow") {    // what is printed, into a stream and to the standard output
        std::ostringstream o, c;
        std::streambuf *old = std::cout.rdbuf(c.rdbuf());
        if (op == "show") { d(1).print(o); d(1).disp(); }
        else { o << m(1); m(1).display_formula(); }
        std::cout.rdbuf(old);
        return "{\"text\":" + js(o.str()) + ",\"out\":" + js(c.str()) + "}";
    }
    if (op == "print")  { std::ostringstream o; d(1).print(o); return ok; }
    if (op == "obs") {
        STLDriver &x = d(1);
        string forms = "[", tests = "[", q = "[";
        for (auto &p : x.formula_map) forms += (forms.size() > 1 ? "," : "") + js(p.first);
        for (auto &p : x.stl_test_map) tests += (tests.size() > 1 ? "," : "") + js(p.first);
        for (auto &t : x.trace_test_queue) {
            q += (q.size() > 1 ? string(",") : string()) + "[" + js(t.id) + ",[";
            bool first = true;
            for (auto &e : t.tests) { q += (first ? "" : ",") + js(e.test_id); first = false; }
            q += "]]";
        }
        return "{\"names\":" + js(x.get_signals_names()) + ",\"par\":" + jmap(x.param_map) + ",\"data\":" + jdata(x.data) +
               ",\"forms\":" + forms + "],\"sem\":" + js(x.get_semantics()) + ",\"itp\":" + js(x.get_interpol()) +
               ",\"tests\":" + tests + "],\"queue\":" + q + "],\"npos\":" + std::to_string(x.nb_test_pos) +
               ",\"ntot\":" + std::to_string(x.nb_test_total) + ",\"err\":" + B(x.error_flag) + "}";
    }
    if (op == "runtests") {
        STLDriver &x = d(1);
        bool r = x.run_tests();
        return "{\"ret\":" + B(r) + ",\"report\":" + js(x.report) + ",\"log\":" + js(x.test_log) +
               ",\"npos\":" + std::to_string(x.nb_test_pos) + ",\"ntot\":" + std::to_string(x.nb_test_total) +
               ",\"err\":" + B(x.error_flag) + ",\"empty\":" + B(x.trace_test_queue_empty()) + "}";
    }
    if (op == "tenv")   return js(d(1).get_next_trace_test_env());
    if (op == "tpop")   { d(1).pop_next_trace_test(); return ok; }
    if (op == "dumpt")  { d(1).dump_trace_file(f[2]); return ok; }
    if (op == "readt")  return B(d(1).read_trace_file(f[2]));
    if (op == "ptrace") { std::ostringstream o; d(1).print_trace(o); return js(o.str()); }
    if (op == "dumplog") { bool b = d(1).dump_test_log_file(f[2]); return "{\"ret\":" + B(b) + ",\"text\":" + js(slurp(f[2])) + "}"; }
    if (op == "dumpf")  {
        d(1).dump();
        string o = "[";
        for (auto &p : d(1).formula_map)
            o += (o.size() > 1 ? string(",") : string()) + "[" + js(p.first) + "," + js(slurp(p.first + ".out")) + "]";
        return o + "]";
    }
    if (op == "readraw"){ trace_data x; bool b = read_trace(f[1], x); return "{\"ret\":" + B(b) + ",\"data\":" + jdata(x) + "}"; }
    if (op == "writef" || op == "wtrace") { FILE *o = fopen(f[1].c_str(), "w"); string t = unesc(f[2]); fwrite(t.data(), 1, t.size(), o); fclose(o); return ok; }
    // monitors
    if (op == "mnew")   { w.M[f[1]].reset(new STLMonitor()); if (OT) m(1).set_eval_time(OT * KT, OT * KT); return ok; }
    if (op == "madd")   { m(1).add_sample(row(f, 2)); return ok; }
    if (op == "msetp")  { m(1).set_param(f[2], num(f[3])); return ok; }
    if (op == "mgetp")  return jp(f[2], m(1).get_param(f[2]));
    if (op == "msem")   { m(1).set_semantics(f[2]); return ok; }
    if (op == "mitp")   { m(1).set_interpol(f[2]); return ok; }
    if (op == "mtime")  { m(1).set_eval_time(num(f[2]), num(f[3])); return ok; }
    if (op == "meval")  { double r = f.size() == 2 ? m(1).eval_rob() : f.size() == 3 ? m(1).eval_rob(num(f[2])) : m(1).eval_rob(num(f[2]), num(f[3]));
                          return "[" + jv(r) + "," + jv(m(1).get_lower_rob()) + "," + jv(m(1).get_upper_rob()) + "," + jv(m(1).get_rob()) + "]"; }
    if (op == "msig")   { double r = m(1).eval_rob(num(f[2]), num(f[3]));      // the signal, compared up to f[4]
                          return "{\"res\":[" + jv(r) + "," + jv(m(1).get_lower_rob()) + "," + jv(m(1).get_upper_rob()) +
                                 "],\"sig\":" + jsig(m(1).get_signal(), num(f[2]), num(f[4])) + "}"; }
    if (op == "mget")   return jsig(m(1).get_signal(), num(f[2]), num(f[3]));   // without evaluating
    if (op == "mcopy")  { w.M[f[1]].reset(new STLMonitor(m(2))); return ok; }
    if (op == "mcassign") { m(1) = m(2); return ok; }
    if (op == "mmove")  { w.M[f[1]].reset(new STLMonitor(std::move(m(2)))); w.M.erase(f[2]); return ok; }
    if (op == "mmassign") { m(1) = std::move(m(2)); w.M.erase(f[2]); return ok; }
    if (op == "mdel")   { w.M.erase(f[1]); return ok; }
    if (op == "mclear") { m(1).reset_signal_data(); return ok; }
    if (op == "mobs")   { STLMonitor &x = m(1);
        return "{\"par\":" + jmap(x.param_map) + ",\"data\":" + jdata(x.data) + ",\"sem\":" + js(x.get_semantics()) +
               ",\"itp\":" + js(x.get_interpol()) + ",\"names\":" + js(x.get_signal_names()) + ",\"has\":" + B(x.formula != nullptr) +
               ",\"res\":[" + jv(x.rob) + "," + jv(x.lower_rob) + "," + jv(x.upper_rob) + "],\"time\":[" + jt(x.start_time) + "," + jt(x.end_time) + "]}"; }
    // signals
    if (op == "signew") { w.S[f[1]] = Signal(); return ok; }
    if (op == "sitp")   { Signal::set_interpol(f[1]); return ok; }
    if (op == "sget")   return jsig(s(1));
    if (op == "smpat")  { auto p = csv(f[1]); return jv(Sample(p[0], p[1], p[2]).valueAt(num(f[2]))); }
    if (op == "smpint") { auto p = csv(f[1]), q = csv(f[2]); return jt(Sample(p[0], p[1], p[2]).timeIntersect(Sample(q[0], q[1], q[2]))); }
    if (op[0] == 's') {
        if (op == "sapp")   { if (f.size() > 4) s(1).appendSample(num(f[2]), num(f[3]), num(f[4])); else s(1).appendSample(num(f[2]), num(f[3])); }
        else if (op == "sarr")   { vector<double> t = csv(f[2]), v = csv(f[3]); s(1) = Signal(t.data(), v.data(), t.size()); }
        else if (op == "sappsig") s(1).appendSignal(s(2));
        else if (op == "slast")  s(1).addLastSample();
        else if (op == "sand")   s(1).compute_and(s(2), s(3));
        else if (op == "sor")    s(1).compute_or(s(2), s(3));
        else if (op == "simp")   s(1).compute_implies(s(2), s(3));
        else if (op == "snot")   s(1).compute_not(s(2));
        else if (op == "sev")    s(1).compute_timed_eventually(s(2), num(f[3]), num(f[4]));
        else if (op == "salw")   s(1).compute_timed_globally(s(2), num(f[3]), num(f[4]));
        else if (op == "sbev")   s(1).compute_bounded_eventually(s(2), num(f[3]));
        else if (op == "sbalw")  s(1).compute_bounded_globally(s(2), num(f[3]));
        else if (op == "sevu")   s(1).compute_eventually(s(2));
        else if (op == "salwu")  s(1).compute_globally(s(2));
        else if (op == "suntilu") s(1).compute_until(s(2), s(3));
        else if (op == "suntil") { s(1).compute_timed_until(s(2), s(3), num(f[4]), num(f[5]));
                                   return jsig(s(1), -HUGE_VAL, std::min(s(2).endTime, s(3).endTime) - num(f[5])); }
        else if (op == "sbool")  s(1).compute_boolean(s(2));
        else if (op == "sleft")  s(1).compute_left_time_rob(s(2));
        else if (op == "sright") s(1).compute_right_time_rob(s(2));
        else if (op == "ssimpl") s(1).simplify();
        else if (op == "scopy")  s(1) = s(2);
        else if (op == "sresize") s(1).resize(num(f[2]), num(f[3]), num(f[4]));
        else if (op == "sshift") s(1).shift(num(f[2]));
        else throw std::runtime_error("harness: unknown op " + op);
        return jsig(s(1));
    }
    throw std::runtime_error("harness: unknown op " + op);
}

static int outfd = 1;
static string obuf;
static void flushout() {
    size_t k = 0;
    while (k < obuf.size()) {
        ssize_t n = write(outfd, obuf.data() + k, obuf.size() - k);
        if (n <= 0) _exit(99);
        k += n;
    }
    obuf.clear();
}

static const std::set<string> FILES = {"writef", "wtrace", "parsef", "readt", "dumpt", "readraw", "dumplog", "dumpf"};

static void child(const vector<Fields> &ep, const vector<string> &pre) {
    alarm(20);
    for (auto &f : ep)
        if (FILES.count(f[0])) {        // a directory of its own
            string dir = "ep." + std::to_string(getpid());
            if (mkdir(dir.c_str(), 0700) || chdir(dir.c_str())) _exit(96);
            break;
        }
    World w;
    size_t k = 0;
    for (auto &f : ep) {
        string r;
        if (f[0] == "fresh") r = "{\"r\":" + pre[k++] + "}\n";
        else try { r = "{\"r\":" + call(w, f) + "}\n"; }
        catch (const std::invalid_argument &) { r = "{\"r\":{\"x\":\"invalid_argument\"}}\n"; }
        catch (const std::exception &e) { r = "{\"r\":{\"x\":\"exception\"}}\n"; }
        obuf = r;
        flushout();
    }
    w.D.clear();
    w.M.clear();
    obuf = "{\"end\":1}\n";
    flushout();
    _exit(0);
}

static void run(const vector<Fields> &ep) {
    Signal::set_BigM(BIGM * KV);
    vector<string> pre;
    for (auto &f : ep) if (f[0] == "fresh") pre.push_back(fresh(f));
    pid_t p = fork();
    if (p == 0) child(ep, pre);
    int st = 0;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        std::ostringstream o;
        if (WIFSIGNALED(st)) o << "signal " << WTERMSIG(st); else o << "exit " << WEXITSTATUS(st);
        obuf = "{\"crash\":\"" + o.str() + "\"}\n";
        flushout();
    }
    obuf = "{\"done\":1}\n";
    flushout();
}

int main(int argc, char **argv) {
    // results go to the original stdout; what the library prints goes nowhere
    outfd = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    if (argc < 2 || string(argv[1]) != "-v") dup2(nul, 2);
    BIGM = Signal::BigM;
    string line;
    vector<Fields> ep;
    bool in = false;
    while (std::getline(std::cin, line)) {
        Fields f;
        std::stringstream ss(line);
        string x;
        while (std::getline(ss, x, '\t')) f.push_back(x);
        if (!line.empty() && line.back() == '\t') f.push_back("");
        if (f.empty()) continue;
        if (f[0] == "ep") { 
            if (in) run(ep);
            ep.clear();
            in = true;
            KT = f.size() > 3 ? num(f[2]) : 1;
            KV = f.size() > 3 ? num(f[3]) : 1;
            OT = f.size() > 4 ? num(f[4]) : 0;
        }
        else ep.push_back(f);
    }
    if (in) run(ep);
    return 0;
}
