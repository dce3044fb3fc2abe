// C10: read_dimacs_from_file on every line sequence of the bounded space, validators on every small multigraph.
// Case encoding: g = the graph the generator described (0-based edges in file order), tag = "R <text>" (must be read),
// "T <text>" (must raise an error), "V" (validators on g).
#include <runner.hpp>
#include <list>
#include <system_error>
#include <sys/mman.h>
#include <boost/graph/adjacency_list.hpp>
#include <parmcb/util.hpp>
using namespace vf;

typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GV;
typedef boost::adjacency_list<boost::listS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GL;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, int>> GI;
typedef boost::adjacency_list<boost::vecS, boost::listS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double>> GLV;

static std::string esc(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size();) {
        char c = s[i]; size_t j = i; while (j < s.size() && s[j] == c) j++;
        if (j - i > 20) { r += "\\r" + std::to_string(j - i) + "," + c; i = j; continue; }
        i++;
        if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\c"; else if (c == '\\') r += "\\\\"; else r += c;
    }
    return r;
}
static std::string unesc(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { r += s[i]; continue; }
        char c = s[++i];
        if (c == 'n') r += '\n'; else if (c == 't') r += '\t'; else if (c == 'c') r += '\r'; else if (c == '\\') r += '\\';
        else { size_t k = atol(s.c_str() + i + 1); while (s[i] != ',') i++; r += std::string(k, s[++i]); }
    }
    return r;
}

struct Line { std::string s; int kind; int u, v; double w; }; // kind 0 ignored, 1 edge, 2 edge naming an undeclared vertex

struct H : Harness {
    bool thorough = false; int fd = -1;
    void prepare(const Options &o) override { thorough = o.thorough(); }

    template<class G> bool read(Worker &w, const Case &c, const std::string &text, bool mustthrow, const char *what) {
        if (fd < 0) fd = memfd_create("dimacs", 0);
        if (ftruncate(fd, 0) || pwrite(fd, text.data(), text.size(), 0) != (ssize_t) text.size()) { w.fail("harness", "cannot write the text"); return false; }
        int d = dup(fd); lseek(d, 0, SEEK_SET);
        FILE *fp = fdopen(d, "r");
        G g; bool threw = false;
        w.sub(what);
        try { parmcb::read_dimacs_from_file(fp, g); } catch (const std::exception &) { threw = true; }
        fclose(fp);
        w.count("executions");
        if (mustthrow) {
            if (!threw) { w.fail("no-error", "an edge line names an undeclared vertex, no error raised"); return false; }
            w.count("rejected"); return true;
        }
        if (threw) { w.fail("error", "error raised for a text in which every edge names declared vertices"); return false; }
        if ((int) boost::num_vertices(g) != c.g.n) { w.fail("vertices", std::to_string(boost::num_vertices(g)) + " vertices, the text declares " + std::to_string(c.g.n)); return false; }
        if ((int) boost::num_edges(g) != c.g.m()) { w.fail("edges", std::to_string(boost::num_edges(g)) + " edges, the text has " + std::to_string(c.g.m()) + " edge lines"); return false; }
        auto wm = boost::get(boost::edge_weight, g);
        size_t i = 0;
        for (auto p = boost::edges(g); p.first != p.second; ++p.first, ++i) {
            long s = boost::source(*p.first, g), t = boost::target(*p.first, g); auto &e = c.g.e.at(i);
            if (std::min(s, t) != std::min(e.u, e.v) || std::max(s, t) != std::max(e.u, e.v)) {
                w.fail("endpoints", "edge " + std::to_string(i) + " joins " + std::to_string(s + 1) + "," + std::to_string(t + 1) + " instead of " + std::to_string(e.u + 1) + "," + std::to_string(e.v + 1)); return false; }
            if (!(wm[*p.first] == e.w)) { char b[100]; snprintf(b, sizeof b, "edge %zu has weight %.17g instead of %.17g", i, (double) wm[*p.first], e.w); w.fail("weight", b); return false; }
        }
        if (i != c.g.e.size()) { w.fail("edges", "edge iteration gives " + std::to_string(i) + " edges"); return false; }
        return true;
    }
    template<class G> void valid(Worker &w, const Case &c, const char *ty, bool intw) {
        bool loops = false, mult = false, nonpos = false;
        std::set<std::pair<int,int>> seen;
        for (auto &e : c.g.e) {
            if (e.u == e.v) loops = true;
            if (!seen.insert({std::min(e.u, e.v), std::max(e.u, e.v)}).second) mult = true;
            if (e.w <= 0) nonpos = true;
            if (intw && e.w != std::floor(e.w)) return;
        }
        G g; std::vector<typename boost::graph_traits<G>::vertex_descriptor> vs;
        for (int i = 0; i < c.g.n; i++) vs.push_back(boost::add_vertex(g));
        auto wm = boost::get(boost::edge_weight, g);
        for (auto &e : c.g.e) { auto ed = boost::add_edge(vs[e.u], vs[e.v], g).first; wm[ed] = e.w; }
        w.sub(std::string("has_loops ") + ty);
        if (parmcb::has_loops(g) != loops) { w.fail("has_loops", std::string("answers ") + (loops ? "false" : "true")); return; }
        w.sub(std::string("has_non_positive_weights ") + ty);
        if (parmcb::has_non_positive_weights(g, wm) != nonpos) { w.fail("has_non_positive_weights", std::string("answers ") + (nonpos ? "false" : "true")); return; }
        if (!loops) {
            w.sub(std::string("has_multiple_edges ") + ty);
            if (parmcb::has_multiple_edges(g) != mult) { w.fail("has_multiple_edges", std::string("answers ") + (mult ? "false" : "true")); return; }
        }
        w.count("executions", loops ? 2 : 3);
        w.count(loops ? "valid:with_loops" : mult ? "valid:with_parallel" : nonpos ? "valid:nonpositive_only" : "valid:accepted");
    }
    void check(Worker &w, const Case &c) override {
        if (c.tag == "V") {
            valid<GV>(w, c, "vecS", false); if (w.casefails) return;
            valid<GL>(w, c, "listS edges", false); if (w.casefails) return;
            valid<GLV>(w, c, "listS vertices", false); if (w.casefails) return;
            valid<GI>(w, c, "int weights", true);
            return;
        }
        bool thr = c.tag[0] == 'T';
        std::string text = unesc(c.tag.substr(2));
        if (!read<GV>(w, c, text, thr, "read_dimacs_from_file")) return;
        if (c.g.m() <= 2) read<GL>(w, c, text, thr, "read_dimacs_from_file listS");
        if (!thr && c.g.m()) w.sample(w.curspace, w.curspace + ": " + c.tag);
    }
    // one text
    void text(Worker &w, int n, const std::string &head, const std::vector<const Line *> &ls, const char *sep, bool lastnl) {
        Case c; c.g.n = n; std::string t = head; bool thr = false;
        for (size_t i = 0; i < ls.size(); i++) {
            t += ls[i]->s; if (i + 1 < ls.size() || lastnl) t += sep;
            if (ls[i]->kind == 2) thr = true;
            if (ls[i]->kind == 1) c.g.add(ls[i]->u, ls[i]->v, ls[i]->w);
        }
        if (ls.empty() && !lastnl && !t.empty()) t.pop_back();
        if (thr) { c.g.e.clear(); }
        c.tag = (thr ? "T " : "R ") + esc(t);
        w.visit(c, std::max<size_t>(1, ls.size()));
    }
    void seqs(Worker &w, int n, const std::string &head, const std::vector<Line> &A, int depth, const char *sep = "\n") {
        std::vector<const Line *> st;
        std::function<void(int)> rec = [&](int k) {
            if (w.stopping() || w.capped) return;
            text(w, n, head, st, sep, true); text(w, n, head, st, sep, false);
            if (k == 0) return;
            for (auto &l : A) { st.push_back(&l); rec(k - 1); st.pop_back(); }
        };
        rec(depth);
    }
    static std::string P(int n, int m, const char *fmt = "p edge %d %d\n") { char b[100]; snprintf(b, sizeof b, fmt, n, m); return b; }
    static Line edge(char k, int u, int v, const char *ws, double wv, const char *sp = " ", const char *tail = "") {
        std::string s(1, k); s += sp + std::to_string(u) + sp + std::to_string(v);
        if (*ws) s += std::string(sp) + ws;
        return Line{s + tail, 1, u - 1, v - 1, wv};
    }
    void enumerate(Worker &w) override {
        struct WV { const char *s; double v; };
        static const WV ws[] = {{"", 1}, {"1", 1}, {"2", 2}, {"10", 10}, {"0", 0}, {"-1", -1}, {"0.5", 0.5}, {"-0.25", -0.25}, {"2.0", 2}, {"3.75", 3.75}, {"0.1", 0.1}, {"0.3", 0.3}, {"1234567", 1234567},
            {"16777217", 16777217}, {"2147483648", 2147483648.0}, {"4294967297", 4294967297.0}, {"123456789.25", 123456789.25}, {"9007199254740991", 9007199254740991.0}, {"0.000001", 0.000001},
            {"0.0000000000000001", 0.0000000000000001}, {"007", 7}, {"1.10", 1.1}, {"99999999999999999999", 99999999999999999999.0}, {"3.141592653589793", 3.141592653589793}, {"100.0001", 100.0001}, {"-7.125", -7.125}};
        const char *pf[] = {"p edge %d %d\n", "p col %d %d\n", "p sp %d %d\n", "p max %d %d\n", "p  edge  %d  %d\n", "p\tedge\t%d\t%d\n", "p edge %d %d \n", "p edge %d %d\r\n"};
        // single edge lines: every kind x pair x weight x separator x line end x problem line
        w.space("one edge line");
        for (auto f : pf) for (int n = 0; n <= 3; n++) {
            text(w, n, P(n, 0, f), {}, "\n", true); if (f[strlen(f) - 2] != '\r') text(w, n, P(n, 0, f), {}, "\n", false);
            for (char k : {'e', 'a'}) for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) for (auto &x : ws) for (const char *sp : {" ", "  ", "\t"}) for (const char *tail : {"", " ", "\t"}) for (const char *end : {"\n", "\r\n"}) {
                Line l = edge(k, u, v, x.s, x.v, sp, tail);
                for (int m : {0, 1, 5}) { text(w, n, P(n, m, f), {&l}, end, true); if (m < 2) text(w, n, P(n, m, f), {&l}, end, false); }
            }
        }
        // undeclared vertices
        w.space("undeclared vertex");
        for (int n = 0; n <= 4; n++) {
            std::vector<std::string> bad{"0", std::to_string(n + 1), std::to_string(n + 2), "-1", "-2", "100000", "2147483647", "2147483648", "4294967295", "4294967296", "-4294967295", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617"};
            for (int i = 1; i <= n; i++) for (const char *b : {"4294967296", "8589934592", "65536", "256", "2147483648", "18446744073709551616"}) { __int128 x = 0; for (const char *p = b; *p; p++) x = x * 10 + (*p - '0'); x += i; std::string s; while (x) { s.insert(s.begin(), char('0' + int(x % 10))); x /= 10; } bad.push_back(s); }
            std::vector<Line> good; for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) good.push_back(edge('e', u, v, "3", 3));
            good.push_back(Line{"c x", 0});
            for (char k : {'e', 'a'}) for (auto &b : bad) for (const char *wt : {"", " 2"}) {
                std::vector<Line> bl; std::string kk = std::string(1, k) + " ";
                for (int v = 1; v <= n; v++) { bl.push_back(Line{kk + b + " " + std::to_string(v) + wt, 2}); bl.push_back(Line{kk + std::to_string(v) + " " + b + wt, 2}); }
                bl.push_back(Line{kk + b + " " + b + wt, 2});
                for (auto &l : bl) for (bool nl : {true, false}) {
                    text(w, n, P(n, 1), {&l}, "\n", nl);
                    for (auto &g : good) { text(w, n, P(n, 2), {&g, &l}, "\n", nl); text(w, n, P(n, 2), {&l, &g}, "\n", nl); }
                }
            }
            // an edge line before the problem line
            for (auto &g : good) if (g.kind == 1) { Case c; c.g.n = n; c.tag = "T " + esc(g.s + "\n" + P(n, 1)); w.visit(c); c.tag = "T " + esc(g.s); w.visit(c); }
        }
        // no problem line, comments only
        w.space("comments");
        std::vector<Line> com{{"c", 0}, {"#", 0}, {"c comment", 0}, {"# comment", 0}, {"c e 1 2 3", 0}, {"#e 1 2 3", 0}, {"c p edge 9 9", 0}, {"#p edge 9 9", 0}, {"c\te 1 2", 0}, {"", 0}, {"c # c", 0}, {"#c", 0}, {"c 1 2", 0}};
        seqs(w, 0, "", com, 3);
        { // around and between problem and edge lines
            std::vector<Line> e{edge('e', 1, 2, "", 1), edge('a', 2, 3, "2.5", 2.5), edge('e', 3, 1, "4", 4)};
            for (auto &c0 : com) for (auto &c1 : com) for (auto &c2 : com) for (auto &c3 : com) for (bool nl : {true, false}) {
                text(w, 3, c0.s + "\n" + P(3, 2), {&c1, &e[0], &c2, &e[1], &c3}, "\n", nl);
                text(w, 3, c0.s + "\n" + c1.s + "\n" + P(3, 3), {&e[2], &c2, &c3, &e[1], &e[0]}, "\n", nl);
            }
        }
        // all line sequences
        w.space("line sequences n=2");
        {
            std::vector<Line> A{edge('e', 1, 2, "", 1), edge('a', 2, 1, "", 1), edge('e', 1, 2, "2", 2), edge('a', 1, 2, "0.5", 0.5), edge('e', 2, 2, "3", 3), edge('a', 1, 1, "", 1), edge('e', 2, 1, "-1", -1), {"c e 1 2 9", 0}, {"#", 0}, {"e 1 3", 2}, {"a 0 2 5", 2}, {"", 0}};
            seqs(w, 2, P(2, 1), A, thorough ? 5 : 4); seqs(w, 2, "#x\n" + P(2, 7, pf[2]), A, 3, "\r\n");
        }
        w.space("line sequences n=3");
        {
            std::vector<Line> A;
            for (int u = 1; u <= 3; u++) for (int v = 1; v <= 3; v++) { A.push_back(edge(u < v ? 'e' : 'a', u, v, (u + v) % 2 ? "" : "2", (u + v) % 2 ? 1 : 2)); A.push_back(edge(u < v ? 'a' : 'e', u, v, u > 1 ? "0.75" : "5", u > 1 ? 0.75 : 5)); }
            A.push_back({"c 1", 0}); A.push_back({"# 2", 0}); A.push_back({"e 4 1", 2});
            seqs(w, 3, P(3, 3), A, thorough ? 5 : 4);
        }
        // every text of simple graphs, with all weights optional
        w.space("multigraphs n<=4, every edge list of length <=4");
        for (int n = 1; n <= 4; n++) {
            std::vector<Line> A; for (int u = 1; u <= n; u++) for (int v = 1; v <= n; v++) A.push_back(edge((u + v) % 2 ? 'e' : 'a', u, v, u == v ? "" : "1.5", u == v ? 1 : 1.5));
            seqs(w, n, P(n, 4), A, n <= 3 || thorough ? 4 : 3);
        }
        // lines of every length up to the buffer
        w.space("long lines");
        {
            std::vector<Line> e{edge('e', 1, 2, "", 1), edge('a', 2, 3, "2.5", 2.5)};
            for (int len = 2; len <= 1023; len++) for (char k : {'c', '#'}) for (char fill : {'x', 'e', '1', ' '}) {
                Line l{std::string(1, k) + std::string(len - 1, fill), 0};
                for (bool nl : {true, false}) { text(w, 3, P(3, 2), {&e[0], &e[1], &l}, "\n", nl); text(w, 3, l.s + "\n" + P(3, 2), {&l, &e[0], &l, &e[1]}, "\n", nl); }
            }
            for (int len = 8; len <= 1023; len++) for (int k = 0; k < 4; k++) { // edge and problem lines padded with blanks
                std::string pad(len - 7, ' '); Line l{k == 0 ? "e 1 2 3" + pad : k == 1 ? "e" + pad + " 1 2 3" : k == 2 ? "e 1 2" + pad + " 3" : "a 1" + pad + " 2 3", 1, 0, 1, 3};
                for (bool nl : {true, false}) { text(w, 3, P(3, 2), {&l, &e[1]}, "\n", nl); text(w, 3, P(3, 2), {&e[1], &l}, "\n", nl); }
                if (len >= 12) { std::string pl = "p edge 3 2" + std::string(len - 10, ' '); text(w, 3, pl + "\n", {&l, &e[1]}, "\n", true); text(w, 3, "p " + std::string(len - 6, 'q') + " 3 2" + "\n", {&l, &e[1]}, "\n", true); }
            }
        }
        // larger files
        w.space("large files");
        for (int n : {9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1500}) for (int pat = 0; pat < 6; pat++) for (bool nl : {true, false}) {
            std::vector<Line> A; 
            auto add = [&](int u, int v, int i) { char b[40]; snprintf(b, sizeof b, "%d.%02d", i + 1, 25 * (i % 4)); A.push_back(edge(i % 2 ? 'e' : 'a', u, v, i % 5 ? b : "", i % 5 ? (i + 1) + 0.25 * (i % 4) : 1)); };
            if (pat == 0) for (int i = 1; i < n; i++) add(i, i + 1, i);
            if (pat == 1) for (int i = n; i > 1; i--) add(i, i - 1, i);
            if (pat == 2) for (int i = 1; i <= n; i++) add(i, n + 1 - i, i);
            if (pat == 3) for (int i = 0; i < 3 * n; i++) add(1 + (i * 7) % n, 1 + (i * i) % n, i);
            if (pat == 4) for (int i = 2; i <= n; i++) add(1, i, i);
            if (pat == 5) for (int i = 0; i < n; i++) add(n, n, i);
            std::vector<const Line *> L; for (auto &l : A) L.push_back(&l);
            text(w, n, P(n, (int) L.size()), L, "\n", nl);
        }
        // validators: every multigraph
        w.space("validators");
        auto multis = [&](int n, int mmax, const std::vector<double> &wts) {
            std::vector<WEdge> A; for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) for (double x : wts) A.push_back({u, v, x});
            Case c; c.tag = "V"; c.g.n = n;
            std::function<void(int)> rec = [&](int k) { if (w.stopping() || w.capped) return; w.visit(c); if (!k) return; for (auto &a : A) { c.g.e.push_back(a); rec(k - 1); c.g.e.pop_back(); } };
            rec(mmax);
        };
        multis(0, 0, {1}); multis(1, 4, {1, 0, -1}); multis(2, thorough ? 5 : 4, {1, 0, -1}); multis(3, 3, {1, 0, -1, 0.5, -0.0, 1e-320, -1e-320}); multis(4, thorough ? 4 : 3, {2, 0, -1});
        multis(3, thorough ? 6 : 5, {1}); multis(4, thorough ? 5 : 4, {1}); multis(5, 3, {1, 0}); multis(6, 3, {1});
        // one offending edge at every position of a larger graph
        for (int n : {2, 5, 16, 60, 257}) for (int pos = 0; pos <= n - 1; pos += std::max(1, n / 20)) for (int kind = 0; kind < 6; kind++) {
            Case c; c.tag = "V"; c.g.n = n;
            for (int i = 0; i + 1 < n; i++) { c.g.add(i, i + 1, 1 + i % 3); if (i == pos || (pos == n - 1 && i == n - 2)) {
                if (kind == 1) c.g.add(i, i, 1); if (kind == 2) c.g.add(i + 1, i, 2); if (kind == 3) c.g.e.back().w = 0; if (kind == 4) c.g.e.back().w = -2; if (kind == 5) c.g.e.back().w = 1e-310; } }
            if (pos == n - 1 && kind == 2) { c.g.add(0, n - 1, 1); if (n > 2) c.g.add(0, n - 1, 1); }
            if (pos == n - 1 && kind == 1) c.g.add(n - 1, n - 1, 1);
            w.visit(c);
            auto r = c; std::reverse(r.g.e.begin(), r.g.e.end()); w.visit(r);
        }
        for (int n : {6, 20, 100}) for (int i = 1; i < n; i++) { // far apart copies of one star edge
            Case c; c.tag = "V"; c.g.n = n; for (int j = 1; j < n; j++) c.g.add(0, j, 1); c.g.add(i, 0, 1); w.visit(c);
        }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
