// C01: loading a dataset is exact or refused under I/O faults.
#include "core/data/load.hpp"
#include "common.hpp"
using namespace sim;
typedef std::vector<std::vector<double>> Rows;

// Reference reader. Every maximal run of non-blank characters of a line is a
// field; verdict says whether the field is one decimal number.
enum Verdict { GOOD, BAD, UNCLEAR };
struct Ref { Rows rows; bool bad = false, unclear = false, blank = false; };
enum Type { DOUBLE, INT, SIZE, FLOAT };       // of the elements read into
static Verdict field(const std::string& f, Type type, double& v) {
    size_t i = 0, n = f.size();
    if (i < n && (f[i] == '+' || f[i] == '-')) i++;
    size_t d0 = i; while (i < n && isdigit((unsigned char)f[i])) i++;
    size_t digits = i - d0;
    if (type == SIZE) {
        if (i == n && digits) {
            bool zero = f.find_first_not_of("+-0") == f.npos; if (f[0] == '-') return zero ? UNCLEAR : BAD;
            errno = 0; unsigned long long x = strtoull(f.c_str(), nullptr, 10); if (errno) return BAD; v = (double)x; return GOOD;
        }
        return (digits && (f[i] == '+' || f[i] == '-')) ? UNCLEAR : BAD;
    }
    if (type == INT) {
        if (i == n && digits) { long long x = strtoll(f.c_str(), nullptr, 10); if (digits > 12 || x > INT32_MAX || x < INT32_MIN) return BAD; v = (double)x; return GOOD; }
        return (digits && (f[i] == '+' || f[i] == '-')) ? UNCLEAR : BAD;
    }
    if (i < n && f[i] == '.') { i++; size_t e = i; while (i < n && isdigit((unsigned char)f[i])) i++; digits += i - e; }
    if (!digits) {
        // "inf", "nan": accepted by some parsers, refused by others
        std::string l; for (char c : f) l += (char)tolower(c);
        if (l.find("inf") != l.npos || l.find("nan") != l.npos) return UNCLEAR;
        return BAD;
    }
    if (i < n && (f[i] == 'e' || f[i] == 'E')) {
        size_t k = i + 1; if (k < n && (f[k] == '+' || f[k] == '-')) k++;
        size_t e = k; while (k < n && isdigit((unsigned char)f[k])) k++;
        if (k == e) return BAD;
        i = k;
    }
    if (i == n) { v = type == FLOAT ? strtof(f.c_str(), nullptr) : strtod(f.c_str(), nullptr); return std::isfinite(v) ? GOOD : BAD; }
    // two numbers glued together ("1-2", "1.2.3") or a hexadecimal one
    return (f[i] == '+' || f[i] == '-' || f[i] == '.' || f[i] == 'x' || f[i] == 'X') ? UNCLEAR : BAD;
}
static Ref reference(const std::string& s, Type type) {
    Ref r; size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p); if (e == s.npos) e = s.size();
        std::string line = s.substr(p, e - p); p = e + 1;
        std::vector<double> row; size_t i = 0;
        while (i < line.size()) {
            while (i < line.size() && isspace((unsigned char)line[i])) i++;
            size_t b = i; while (i < line.size() && !isspace((unsigned char)line[i])) i++;
            if (i > b) { double v = 0; Verdict q = field(line.substr(b, i - b), type, v); if (q == BAD) r.bad = true; if (q == UNCLEAR) r.unclear = true; row.push_back(v); }
        }
        if (row.empty()) r.blank = true;
        r.rows.push_back(row);
    }
    return r;
}

static std::string number(Rng& r, Type type) {
    char b[64];
    if (type == SIZE) {
        switch (r.below(60)) {
            case 0: return "18446744073709551615"; case 1: return "4294967296"; case 2: return "+7"; case 3: return "0004";
            case 4: snprintf(b, sizeof b, "%llu", 4294967290ull + r.below(1000000)); return b;
            case 5: if (r.below(8) == 0) { snprintf(b, sizeof b, "-%d", (int)r.below(2000)); return b; } break;
            case 6: if (r.below(8) == 0) return "18446744073709551616";
        }
        snprintf(b, sizeof b, "%d", (int)r.below(3000)); return b;
    }
    if (type == INT) {
        switch (r.below(60)) {
            case 0: return "2147483647"; case 1: return "-2147483648"; case 2: snprintf(b, sizeof b, "%08d", (int)r.below(2000)); return b;
            case 3: snprintf(b, sizeof b, "%d", 0x7fffffff - (int)r.below(100000)); return b;
            case 4: snprintf(b, sizeof b, "%d", 16777217 + 2 * (int)r.below(1000)); return b;
            case 5: if (r.below(8) == 0) { snprintf(b, sizeof b, "%lld", 2147483648ll + (long long)r.below(1000000)); return b; }
        }
        snprintf(b, sizeof b, "%d", (int)r.below(2000) - 1000); return b;
    }
    switch (r.below(7)) {
        case 6: switch (r.below(40)) {
            case 0: snprintf(b, sizeof b, "%.17g", r.normal() * std::pow(10.0, 300)); return b;
            case 1: snprintf(b, sizeof b, "%.17g", r.normal() * std::pow(10.0, -300)); return b;
            case 2: return "4.9406564584124654e-324"; case 3: return "-0"; case 4: return "1.7976931348623157e+308";
            case 5: snprintf(b, sizeof b, "%llu", 9007199254740993ull + r.below(1000000)); return b;
            case 6: return r.below(10) ? "2.2250738585072014e-308" : "1e400";
            case 7: snprintf(b, sizeof b, "0.%015llu%015llu%015llu", (unsigned long long)r.below(1000000000000000ull), (unsigned long long)r.below(1000000000000000ull), (unsigned long long)r.below(1000000000000000ull)); return b;
            case 8: snprintf(b, sizeof b, "%030d.5", (int)r.below(1000)); return b;
            case 9: return ".5"; case 10: snprintf(b, sizeof b, "%dE%d", (int)r.below(90), (int)r.below(9)); return b;
        }
        [[fallthrough]];
        case 0: snprintf(b, sizeof b, "%d", (int)r.below(100) - 20); break;
        case 1: snprintf(b, sizeof b, "%.17g", r.normal()); break;
        case 2: snprintf(b, sizeof b, "%.3f", r.normal() * 100); break;
        case 3: snprintf(b, sizeof b, "%.6e", r.normal() * std::pow(10, (int)r.below(60) - 30)); break;
        case 4: snprintf(b, sizeof b, "%.1f", (double)r.below(1000)); break;
        default: snprintf(b, sizeof b, "%s%d.", r.below(2) ? "+" : "", (int)r.below(50));
    }
    return b;
}
static std::string content(Type type) {
    int kind = (int)choose(12, "file.kind"); if (kind > 9) kind = 8;
    if (kind == 9) return choose(2, "empty") ? std::string("\n") : std::string();
    Rng r = data_rng("file.data");
    // most files are small; some are longer than a stream buffer
    uint64_t fl = choose(360, "file.long"); int nr = fl == 359 ? (choose(16, "file.vast") == 15 ? range(65000, 68000, "rows") : range(3000, 9000, "rows")) : fl >= 330 ? range(300, 900, "rows") : range(1, 8, "rows");
    int nc = choose(20, "file.wide") == 19 ? range(40, 700, "cols.wide") : range(1, 6, "cols");
    if (nr > 60000) nc = std::min(nc, 2);
    if (nc > 6) nr = std::min(nr, 12);
    int sep = (int)choose(4, "sep");
    std::string s;
    for (int i = 0; i < nr; i++) {
        int k = nc;
        if (kind == 7 && r.below(nr) == 0) k = (int)r.below(nc + 2);      // ragged
        for (int j = 0; j < k; j++) {
            if (j) s += sep == 0 ? " " : sep == 1 ? "\t" : sep == 2 ? "   " : (r.below(2) ? " " : "\t");
            s += number(r, type);
        }
        if (kind == 6 && r.below(3) == 0) s += " ";
        if (kind == 5) s += "\r";
        if (i + 1 < nr || kind != 4) s += "\n";
    }
    if (kind == 8) {                                                        // corrupted byte
        int m = range(1, 3, "corruptions");
        static const char bad[] = "x,;-.#\0?e \n\xff";
        for (int i = 0; i < m; i++) {
            int how = (int)choose(4, "corrupt.how");
            if (how == 0) s[choose(s.size(), "corrupt.at")] = bad[choose(sizeof bad - 1, "corrupt.to")];
            else if (how == 1) s[choose(s.size(), "corrupt.at")] = (char)choose(256, "corrupt.byte");
            else {                                                          // something stuck to the end or the start of a field
                static const char* junk[] = {"\\", "#", "%", "//", "NA", "null", "f", "L", "\x1a", "\xef\xbb\xbf", ",", ";", "e", "_", "\"", "'", "(", "=", "$", "u", "d5", "|"};
                size_t at = choose(s.size(), "junk.near");
                if (how == 2) { while (at < s.size() && !isspace((unsigned char)s[at])) at++; } else while (at > 0 && !isspace((unsigned char)s[at - 1])) at--;
                s.insert(at, choose(4, "junk.byte") ? std::string(junk[choose(22, "junk")]) : std::string(1, (char)choose(256, "junk.char")));
            }
        }
        count("corrupted files");
    }
    if (chance(1, 3, "torn")) { s.resize(choose(s.size() + 1, "torn.at")); count("torn files"); }
    return s;
}

// One of the overloads and element types behind a common face. Outputs persist between
// loads so that a second load meets old contents.
struct Out {
    Mat X; Vec y; Rows SX; std::vector<double> sy; std::vector<std::vector<int>> IX; std::vector<int> iy;
    Eigen::MatrixXf FX; Eigen::VectorXf fy; std::vector<std::vector<float>> SFX; std::vector<std::vector<size_t>> UX; std::vector<size_t> uy;
};
static Outcome load(int ov, const std::string& path, Out& o, Rows& X, std::vector<double>& y) {
    Outcome r = attempt([&] {
        if (ov == 0) openml::data::loadtxt<Mat, Vec>(path, o.X, o.y);
        else if (ov == 1) openml::data::loadtxt<double>(path, o.SX);
        else if (ov == 2) openml::data::loadtxt<double>(path, o.SX, o.sy);
        else if (ov == 3) openml::data::loadtxt<int>(path, o.IX);
        else if (ov == 4) openml::data::loadtxt<int>(path, o.IX, o.iy);
        else if (ov == 5) openml::data::loadtxt<size_t>(path, o.UX);
        else if (ov == 6) openml::data::loadtxt<size_t>(path, o.UX, o.uy);
        else if (ov == 7) openml::data::loadtxt<Eigen::MatrixXf, Eigen::VectorXf>(path, o.FX, o.fy);
        else openml::data::loadtxt<float>(path, o.SFX);
    });
    X.clear(); y.clear();
    if (!r.ok()) return r;
    if (ov == 0) {
        if (o.y.size() != o.X.rows()) violate("C01:shape", "%ld rows but %ld labels", (long)o.X.rows(), (long)o.y.size());
        for (int i = 0; i < o.X.rows(); i++) { std::vector<double> w; for (int j = 0; j < o.X.cols(); j++) w.push_back(o.X(i, j)); X.push_back(w); y.push_back(o.y(i)); }
    } else if (ov <= 2) { X = o.SX; if (ov == 2) y = o.sy; }
    else if (ov == 7) {
        if (o.fy.size() != o.FX.rows()) violate("C01:shape", "%ld rows but %ld labels", (long)o.FX.rows(), (long)o.fy.size());
        for (int i = 0; i < o.FX.rows(); i++) { std::vector<double> w; for (int j = 0; j < o.FX.cols(); j++) w.push_back(o.FX(i, j)); X.push_back(w); y.push_back(o.fy(i)); }
    } else if (ov == 8) for (auto& w : o.SFX) X.emplace_back(w.begin(), w.end());
    else if (ov >= 5) { for (auto& w : o.UX) X.emplace_back(w.begin(), w.end()); if (ov == 6) y.assign(o.uy.begin(), o.uy.end()); }
    else { for (auto& w : o.IX) X.emplace_back(w.begin(), w.end()); if (ov == 4) y.assign(o.iy.begin(), o.iy.end()); }
    return r;
}

SIM_SCENARIO("C01") {
    Out out;
    int loads = range(1, 4, "loads");
    std::string desc;
    for (int l = 0; l < loads; l++) {
        int ov = (int)choose(9, "overload");
        const Type type = ov <= 2 ? DOUBLE : ov <= 4 ? INT : ov <= 6 ? SIZE : FLOAT;
        bool labelled = ov == 0 || ov == 2 || ov == 4 || ov == 6 || ov == 7;
        std::string c = content(type);
        std::string path = disk_put(c);
        bool missing = chance(1, 40, "missing");
        if (missing) path += ".none";
        IoPlan p;
        p.short_mode = (int)choose(4, "short");
        p.chunk = 1 + choose(64, "chunk");
        p.seed = choose(1 << 20, "io.seed");
        p.eintr_num = (unsigned)choose(4, "eintr");
        int fault = (int)choose(8, "io.fault");
        if (fault == 1) p.eio_at_byte = (long)choose(c.size() + 1, "eio.at");
        if (fault == 2) p.eof_at_byte = (long)choose(c.size() + 1, "eof.at");
        if (fault == 3) { p.open_fails = true; p.open_errno = choose(2, "open.errno") ? 24 : 13; }
        disk_plan(p);
        uint64_t fa = 0; bool forever = false;
        if (fault >= 6) { fa = 1 + choose(choose(2, "alloc.far") ? 400 : 12, "alloc.at"); forever = chance(1, 4, "alloc.forever"); heap_fail_at(fa, forever); }
        uint64_t before_eio = io_stats().eio, before_open = io_stats().open_fail, before_eof = io_stats().early_eof;
        Rows X; std::vector<double> y;
        Outcome r = load(ov, path, out, X, y);
        bool fired = fa && heap_fault_fired();
        heap_fail_at(0, false);
        bool eio = io_stats().eio > before_eio, opf = io_stats().open_fail > before_open, cut = io_stats().early_eof > before_eof;
        std::string seen = cut ? c.substr(0, p.eof_at_byte) : c;
        Ref ref = reference(seen, type);
        event("load overload=%d bytes=%zu fault=%d -> %s rows=%zu", ov, c.size(), fault, r.ok() ? "ok" : "threw", X.size());
        if (tracing()) { std::string q; for (char ch : c.substr(0, 300)) { if (ch == '\n') q += "\\n"; else if (ch < 32 || ch > 126) q += '?'; else q += ch; } note("content: %s%s", q.c_str(), c.size() > 300 ? "..." : ""); }
        bool ragged = false, empty = ref.rows.empty();
        for (auto& w : ref.rows) if (w.size() != ref.rows[0].size()) ragged = true;
        if (r.ok()) {
            if (missing) violate("C01:missing-file-accepted", "a file that does not exist was loaded (%zu rows)", X.size());
            if (opf) violate("C01:open-failure-accepted", "open failed yet the load returned %zu rows", X.size());
            if (eio) violate("C01:read-error-accepted", "reading failed with EIO at byte %ld of %zu yet the load returned %zu of %zu rows", p.eio_at_byte, c.size(), X.size(), ref.rows.size());
            if (ref.unclear) { count("unclear field, outcome not judged"); continue; }
            if (ref.bad) violate("C01:garbage-accepted", "a field that is no number was accepted, %zu rows returned", X.size());
            if (labelled && (ragged || empty)) {
                if (!(ref.blank)) violate("C01:ragged-accepted", "rows of different length (or none) accepted as %zu rows", X.size());
            }
            Rows want = ref.rows;
            std::vector<double> wy;
            if (ref.blank) {   // blank lines: kept as empty rows or skipped
                Rows w2; for (auto& w : want) if (!w.empty()) w2.push_back(w);
                if (X.size() != want.size() || labelled) want = w2;
            }
            if (labelled) for (auto& w : want) { if (w.empty()) violate("C01:ragged-accepted", "empty row accepted"); wy.push_back(w.back()); w.pop_back(); }
            if (X.size() != want.size()) violate("C01:row-count", "%zu rows returned, the file has %zu (overload %d, %zu bytes seen)", X.size(), want.size(), ov, seen.size());
            for (size_t i = 0; i < X.size(); i++) {
                if (X[i].size() != want[i].size()) violate("C01:column-count", "row %zu has %zu values, the file has %zu", i, X[i].size(), want[i].size());
                for (size_t j = 0; j < X[i].size(); j++) if (!(X[i][j] == want[i][j])) violate("C01:value", "row %zu column %zu is %.17g, the file says %.17g", i, j, X[i][j], want[i][j]);
            }
            if (labelled) {
                if (y.size() != wy.size()) violate("C01:label-count", "%zu labels for %zu rows", y.size(), wy.size());
                for (size_t i = 0; i < y.size(); i++) if (!(y[i] == wy[i])) violate("C01:label", "label %zu is %.17g, the file says %.17g", i, y[i], wy[i]);
            }
            count("loads that returned data");
            if (l) count("reload into used outputs succeeded");
        } else {
            // a healthy, well-formed file must load
            bool good = !ref.bad && !ref.unclear && !ref.blank && !empty && !(labelled && ragged) && !missing && !eio && !opf && !fired && !cut;
            if (good) violate("C01:good-file-refused", "a well-formed file of %zu rows was refused: %s", ref.rows.size(), r.what.c_str());
            count("loads refused");
        }
        if (fired) count(r.ok() ? "allocation failed, load still exact" : "allocation failed, load refused");
        state(hmix(hmix(hmix(ov, fault), r.ok()), p.short_mode * 16 + p.eintr_num * 4 + ref.bad * 2 + ragged));
        if (l == 0) sample("overload %d, %zu bytes, reads %s, fault %d -> %s;", ov, c.size(), p.short_mode == 0 ? "whole" : p.short_mode == 1 ? "bytewise" : "split", fault, r.ok() ? "exact" : r.what.c_str());
    }
    heap_check();
    nontrivial();
}
