// C18: fp / primes / SpVecFP against exact arithmetic (128-bit and multiprecision reference).
#include <runner.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <parmcb/fp.hpp>
#include <parmcb/spvecfp.hpp>
#include <limits>
#include <deque>
using namespace vf;
typedef __int128 I;
typedef boost::multiprecision::cpp_int Z;
static std::string str(I x) { if (x == 0) return "0"; bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128) x : x; std::string s; while (u) { s.insert(s.begin(), '0' + (int) (u % 10)); u /= 10; } return n ? "-" + s : s; }
static std::string str(const Z &z) { return z.str(); }
static I gcdI(I a, I b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { I t = a % b; a = b; b = t; } return a; }
static I modI(I a, I p) { I r = a % p; return r < 0 ? r + p : r; }

template<class T> struct Lim { static I lo() { return (I) std::numeric_limits<T>::min(); } static I hi() { return (I) std::numeric_limits<T>::max(); } };

struct H : Harness {
    bool thorough = false;
    void prepare(const Options &o) override { thorough = o.thorough(); }
    template<class T> bool gcd_one(Worker &w, I A, I B) {
        I G = gcdI(A, B);
        if (A == 0 && B == 0) return true;
        if (G > Lim<T>::hi()) return true; // not representable: no answer exists in this type
        I seen[2][3];
        for (int sent = 0; sent < 2; sent++) {
            T a = (T) A, b = (T) B, x = (T) (sent ? 99 : -77), y = (T) (sent ? -55 : 44); // what an uninitialised variable may hold
            T g;
            try { g = parmcb::fp<T>::ext_gcd(a, b, x, y); } catch (...) { w.fail("ext_gcd", "ext_gcd(" + str(A) + "," + str(B) + ") threw"); return false; }
            w.count("executions");
            if ((I) g != G) { w.fail("ext_gcd", "ext_gcd(" + str(A) + "," + str(B) + ") returned " + str((I) g) + ", gcd is " + str(G)); return false; }
            if (A * (I) x + B * (I) y != G) { w.fail("ext_gcd", "ext_gcd(" + str(A) + "," + str(B) + "): coefficients " + str((I) x) + ", " + str((I) y) + " give " + str(A * (I) x + B * (I) y) + ", gcd is " + str(G)); return false; }
            // the identity also holds for the variables the caller passed
            if ((I) a * (I) x + (I) b * (I) y != G) { w.fail("ext_gcd", "ext_gcd(" + str(A) + "," + str(B) + ") changed its arguments to " + str((I) a) + ", " + str((I) b) + ": a*x + b*y != gcd"); return false; }
        }
        return true;
    }
    template<class T> bool inv_one(Worker &w, I A, I P) {
        bool exists = gcdI(A, P) == 1;
        T a = (T) A, p = (T) P, r = 0; bool threw = false;
        try { r = parmcb::fp<T>::get_mult_inverse(a, p); } catch (...) { threw = true; }
        w.count("executions");
        if (threw == exists) { w.fail("get_mult_inverse", "get_mult_inverse(" + str(A) + "," + str(P) + (threw ? ") threw although gcd is 1" : ") = " + str((I) r) + " although gcd is not 1")); return false; }
        if (exists && modI(modI(A, P) * modI((I) r, P), P) != modI(1, P)) { w.fail("get_mult_inverse", "get_mult_inverse(" + str(A) + "," + str(P) + ") = " + str((I) r)); return false; }
        return true;
    }
    template<class T> void gcdrow(Worker &w, I A, I lo, I hi) { for (I B = lo; B <= hi; B++) { w.count("states"); w.count("transitions"); if (!gcd_one<T>(w, A, B)) return; if (B > 0 && !inv_one<T>(w, A, B)) return; } }
    template<class T> std::vector<I> specials() {
        std::vector<I> v; I lo = Lim<T>::lo(), hi = Lim<T>::hi();
        for (int d = 0; d <= 3; d++) { v.push_back(hi - d); v.push_back(lo + d); v.push_back(d); v.push_back(-d); v.push_back(hi / 2 + d); v.push_back(lo / 2 - d); v.push_back(hi / 3 - d); }
        I f0 = 1, f1 = 1; while (f1 + f0 <= hi) { I t = f0 + f1; f0 = f1; f1 = t; } v.push_back(f0); v.push_back(f1); v.push_back(-f1); v.push_back(-f0); // worst case for Euclid
        I s = 1; while (s <= hi / 2) { s *= 2; v.push_back(s); v.push_back(-s); if (s > 4) v.push_back(s - 1); }
        for (I x : {(I) 6, (I) 12, (I) 30, (I) 97, (I) 101, (I) 46337, (I) 46341, (I) 65537}) if (x <= hi) { v.push_back(x); v.push_back(-x); }
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        std::vector<I> r; for (I x : v) if (x >= lo && x <= hi) r.push_back(x); return r;
    }
    template<class T> void gcdspecial(Worker &w, int row) { auto v = specials<T>(); if (row >= (int) v.size()) return; for (I B : v) { w.count("states"); w.count("transitions"); if (!gcd_one<T>(w, v[row], B)) return; if (B > 0 && !inv_one<T>(w, v[row], B)) return; } }
    void gcdZ(Worker &w, int row) {
        std::vector<Z> v; for (int i = -6; i <= 6; i++) v.push_back(i);
        Z f0 = 1, f1 = 1; for (int i = 0; i < 400; i++) { Z t = f0 + f1; f0 = f1; f1 = t; if (i % 40 == 0 || i > 395) { v.push_back(f1); v.push_back(-f1); } }
        for (int e : {31, 32, 62, 63, 64, 65, 127, 128, 200}) { Z z = Z(1) << e; for (int d = -1; d <= 1; d++) { v.push_back(z + d); v.push_back(-z + d); } }
        if (row >= (int) v.size()) return;
        for (auto &B : v) {
            const Z A = v[row]; if (A == 0 && B == 0) continue;
            w.count("states"); w.count("transitions"); w.count("executions");
            Z G = boost::multiprecision::gcd(boost::multiprecision::abs(A), boost::multiprecision::abs(Z(B)));
            Z a = A, b = B, x = 1234567, y = -7654321, g;
            try { g = parmcb::fp<Z>::ext_gcd(a, b, x, y); } catch (...) { w.fail("ext_gcd", "cpp_int ext_gcd threw"); return; }
            if (g != G || A * x + B * y != G || a * x + b * y != G) { w.fail("ext_gcd", "cpp_int ext_gcd(" + str(A) + "," + str(B) + ") = " + str(g) + ", x = " + str(x) + ", y = " + str(y)); return; }
            if (B > 0) {
                Z p = B, c = A, r = 0; bool threw = false;
                try { r = parmcb::fp<Z>::get_mult_inverse(c, p); } catch (...) { threw = true; }
                if (threw != (G != 1)) { w.fail("get_mult_inverse", "cpp_int get_mult_inverse(" + str(A) + "," + str(B) + ") threw=" + std::to_string(threw)); return; }
                if (!threw && (A * r - 1) % B != 0) { w.fail("get_mult_inverse", "cpp_int get_mult_inverse(" + str(A) + "," + str(B) + ") = " + str(r)); return; }
            }
        }
    }
    // ---- primality
    template<class T> bool prime_one(Worker &w, T p, bool want) {
        bool got = false, threw = false;
        try { got = parmcb::primes<T>::is_prime(p); } catch (...) { threw = true; }
        w.count("executions"); w.count("states"); w.count("transitions");
        if (threw) { w.fail("is_prime", "is_prime(" + str((I) p) + ") threw"); return false; }
        if (got != want) { w.fail("is_prime", "is_prime(" + str((I) p) + ") = " + std::to_string(got)); return false; }
        return true;
    }
    static bool ref_prime(unsigned long long n) { // deterministic Miller-Rabin, 64 bit
        if (n < 2) return false; for (unsigned q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n % q == 0) return n == q; }
        auto mul = [&](unsigned long long a, unsigned long long b) { return (unsigned long long) ((unsigned __int128) a * b % n); };
        unsigned long long d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
        for (unsigned long long a : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) {
            unsigned long long x = 1, b = a % n, e = d; while (e) { if (e & 1) x = mul(x, b); b = mul(b, b); e >>= 1; }
            if (x == 1 || x == n - 1) continue; bool c = true;
            for (int i = 1; i < s && c; i++) { x = mul(x, x); if (x == n - 1) c = false; }
            if (c) return false;
        }
        return true;
    }
    template<class T> void primerange(Worker &w, long long lo, long long hi) { for (long long p = lo; p < hi; p++) if (!prime_one<T>(w, (T) p, ref_prime(p))) return; }
    void primeZ(Worker &w, long long lo, long long hi) { for (long long p = lo; p < hi; p++) { w.count("executions"); w.count("states"); w.count("transitions"); bool got = false, threw = false; try { got = parmcb::primes<Z>::is_prime(Z(p)); } catch (...) { threw = true; } if (threw || got != ref_prime(p)) { w.fail("is_prime", "is_prime<cpp_int>(" + std::to_string(p) + ")"); return; } } }
    // ---- SpVecFP
    template<class P> static P lit(I x) { return (P) x; }
    template<class P> struct VM { // real vector + dense model
        typedef parmcb::SpVecFP<P> V;
    };
    static I toI(int x) { return x; } static I toI(long x) { return x; } static I toI(long long x) { return x; } static I toI(unsigned x) { return x; } static I toI(short x) { return x; }
    static I toI(const Z &z) { return (I) z.convert_to<long long>(); }
    template<class P> static std::string see(const parmcb::SpVecFP<P> &v, const std::map<std::size_t, I> &d, I p) {
        std::vector<std::pair<std::size_t, I>> want, got;
        for (auto &x : d) if (x.second) want.push_back({x.first, x.second});
        for (auto it = v.begin(); it != v.end(); ++it) got.push_back({boost::get<0>(*it), toI(boost::get<1>(*it))});
        if (got != want) { std::string s = "holds"; for (auto &x : got) s += " (" + std::to_string(x.first) + "," + str(x.second) + ")"; s += ", expected"; for (auto &x : want) s += " (" + std::to_string(x.first) + "," + str(x.second) + ")"; return s; }
        if (v.size() != want.size()) return "size() is " + std::to_string((long long) v.size());
        if (toI(v.prime()) != p) return "prime() is " + str(toI(v.prime()));
        return "";
    }
    typedef std::map<std::size_t, I> Dn;
    static Dn addD(const Dn &a, const Dn &b, I p) { Dn r = a; for (auto &x : b) r[x.first] = (r[x.first] + x.second) % p; return r; }
    static Dn mulD(const Dn &a, I s, I p) { Dn r; for (auto &x : a) r[x.first] = modI(x.second, p) * modI(s, p) % p; return r; }
    static I dotD(const Dn &a, const Dn &b, I p) { I r = 0; for (auto &x : a) { auto it = b.find(x.first); if (it != b.end()) r = (r + x.second * it->second % p) % p; } return r; }
    template<class P> static std::vector<I> scalars(I p, bool all) {
        std::vector<I> s; for (I x = -2 * p - 1; x <= 2 * p + 1; x++) if (all || x < -2 * p + 2 || x > 2 * p - 2 || (x > -3 && x < 3) || x == p - 1 || x == 1 - p || x == p || x == -p) s.push_back(x);
        typedef std::numeric_limits<P> L;
        if (L::is_bounded) for (int d = 0; d < 3; d++) { s.push_back((I) Lim<long long>::hi() * 0 + toI2<P>(true) - d); s.push_back(toI2<P>(false) + d); s.push_back(toI2<P>(true) / 2 + d); s.push_back(toI2<P>(false) / 2 - d); s.push_back(toI2<P>(true) / 3 + d); }
        else for (I x : {(I) 1000000007, (I) -1000000007, ((I) 1 << 62), -((I) 1 << 62)}) s.push_back(x);
        std::vector<I> r; for (I x : s) if (!L::is_bounded || (x >= toI2<P>(false) && x <= toI2<P>(true))) r.push_back(x);
        return r;
    }
    template<class P> static I toI2(bool hi) { return toI2_(hi, (P*) 0); }
    template<class P> static I toI2_(bool hi, P*) { return hi ? (I) std::numeric_limits<P>::max() : (I) std::numeric_limits<P>::min(); }
    static I toI2_(bool hi, Z*) { return 0; }
    // explicit-state search: 2 registers over D coordinates mod p, real objects
    template<class P> void fpbfs(Worker &w, int p0, int D) {
        typedef parmcb::SpVecFP<P> V; I p = p0; P pp = (P) p0; const P other = (P) (p0 == 5 ? 3 : 5);
        struct St { std::vector<V> r; std::vector<Dn> d; };
        auto key = [&](const St &s) { std::vector<I> k; for (auto &m : s.d) for (int i = 0; i < D; i++) { auto it = m.find(i); k.push_back(it == m.end() ? 0 : it->second); } return k; };
        std::map<std::vector<I>, std::string> seen; std::deque<St> q;
        St s0; s0.r.push_back(V(pp)); s0.r.push_back(V(pp)); s0.d.resize(2); q.push_back(s0); seen[key(s0)] = "";
        auto sc = scalars<P>(p, p <= 5);
        while (!q.empty()) {
            St s = q.front(); q.pop_front(); std::string hist = seen[key(s)];
            for (int op = 0; op < 2 * D + 26 + 4 * (int) sc.size(); op++) {
                St t; t.r = s.r; t.d = s.d; std::string nm, e;
                if (op < 2 * D) { int i = op / D, c = op % D; t.r[i] = (std::size_t) c; t.d[i].clear(); t.d[i][c] = 1; nm = "r" + std::to_string(i) + "=unit" + std::to_string(c); }
                else if (op < 2 * D + 26) {
                    int k = op - 2 * D, i = k & 1;
                    switch (k / 2) {
                    case 0: t.r[i] += t.r[1 - i]; t.d[i] = addD(t.d[i], t.d[1 - i], p); nm = "r" + std::to_string(i) + "+=other"; break;
                    case 1: t.r[i] += t.r[i]; t.d[i] = addD(t.d[i], t.d[i], p); nm = "r" + std::to_string(i) + "+=self"; break;
                    case 2: { V x = t.r[0] + t.r[1]; t.r[i] = x; t.d[i] = addD(t.d[0], t.d[1], p); nm = "r" + std::to_string(i) + "=r0+r1"; break; }
                    case 3: { V x(t.r[1 - i]); t.r[i] = x; t.d[i] = t.d[1 - i]; nm = "r" + std::to_string(i) + "=copy"; break; }
                    case 4: t.r[i].clear(); t.d[i].clear(); nm = "clear r" + std::to_string(i); break;
                    case 5: { V x(t.r[1 - i]); V y(std::move(x)); t.r[i] = std::move(y); t.d[i] = t.d[1 - i]; nm = "r" + std::to_string(i) + "=move"; break; }
                    // vectors that held another field before
                    case 6: { V x(other), y(t.r[1 - i]); x = (std::size_t) 0; x = std::move(y); t.r[i] = x; t.d[i] = t.d[1 - i]; nm = "r" + std::to_string(i) + "=move over another field"; break; }
                    case 7: { V x(other); x = (std::size_t) 0; x = t.r[1 - i]; V y(x); t.r[i] = std::move(y); t.d[i] = t.d[1 - i]; nm = "r" + std::to_string(i) + "=copy over another field"; break; }
                    case 8: { V x; x = t.r[0] + t.r[1]; t.r[i] = x; t.d[i] = addD(t.d[0], t.d[1], p); nm = "r" + std::to_string(i) + "=default constructed=r0+r1"; break; }
                    case 9: { V x(other); x = (std::size_t) 1; std::swap(x, t.r[i]); V y; y = x; t.r[i] = y * conv<P>(1); nm = "swap with another field"; break; }
                    case 10: { std::swap(t.r[0], t.r[1]); std::swap(t.d[0], t.d[1]); nm = "swap"; break; }
                    case 11: { V &x = t.r[i]; t.r[i] = std::move(x); nm = "self move"; break; }
                    default: { V &x = t.r[i]; t.r[i] = x; nm = "self assignment"; }
                    }
                } else {
                    int k = op - 2 * D - 26; int i = k & 1; bool as = k & 2; I a = sc[k / 4]; P av = conv<P>(a);
                    if (as) t.r[i] *= av; else { V x = t.r[i] * av; t.r[i] = x; }
                    t.d[i] = mulD(t.d[i], a, p); nm = "r" + std::to_string(i) + (as ? "*=" : "=r*") + str(a);
                }
                w.count("transitions"); w.count("executions");
                for (int i = 0; i < 2 && e.empty(); i++) e = see(t.r[i], t.d[i], p);
                auto kk = key(t); bool isnew = !seen.count(kk);
                if (e.empty() && isnew) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) if (toI(P(t.r[i] * t.r[j])) != dotD(t.d[i], t.d[j], p)) e = "dot product r" + std::to_string(i) + ".r" + std::to_string(j) + " is " + str(toI(P(t.r[i] * t.r[j]))) + ", expected " + str(dotD(t.d[i], t.d[j], p));
                if (!e.empty()) { w.fail("SpVecFP", "p=" + std::to_string(p0) + ": after " + hist + " " + nm + ": " + e); return; }
                if (isnew) { seen[kk] = hist + " " + nm; q.push_back(t); w.count("states"); }
            }
        }
    }
    template<class P> static P conv(I x) { return conv_((P*) 0, x); }
    template<class P> static P conv_(P*, I x) { return (P) x; }
    static Z conv_(Z*, I x) { bool n = x < 0; unsigned __int128 u = n ? -(unsigned __int128) x : (unsigned __int128) x; Z z = (unsigned long long) (u >> 64); z <<= 64; z += (unsigned long long) u; return n ? Z(-z) : z; }
    // large moduli of built-in types: unit vectors scaled by every special scalar, summed and multiplied pairwise
    template<class P> void fpbig(Worker &w, I p) {
        typedef parmcb::SpVecFP<P> V; P pp = conv<P>(p); auto sc = scalars<P>(p > 1000 ? 3 : p, true);
        for (I x : {p - 1, p - 2, p / 2, p / 2 + 1, p + 1, -p + 1, -p, (I) 46341, (I) 65536}) if (x <= toI2<P>(true) && x >= toI2<P>(false)) sc.push_back(x);
        for (I a : sc) {
            V u(pp); u = (std::size_t) 1; V ua = u * conv<P>(a); Dn da; da[1] = modI(a, p);
            w.count("states"); w.count("transitions"); w.count("executions");
            std::string e = see(ua, da, p); if (!e.empty()) { w.fail("SpVecFP", "p=" + str(p) + ": unit * " + str(a) + " " + e); return; }
            for (I b : sc) {
                V ub = u * conv<P>(b); Dn db; db[1] = modI(b, p);
                V s = ua + ub, t(ua); t += ub; Dn ds = addD(da, db, p); V m = ua * conv<P>(b), n(ua); n *= conv<P>(b); Dn dm = mulD(da, b, p);
                w.count("states"); w.count("transitions", 5); w.count("executions");
                e = see(s, ds, p); if (e.empty()) e = see(t, ds, p); if (!e.empty()) { w.fail("SpVecFP", "p=" + str(p) + ": " + str(a) + " + " + str(b) + " " + e); return; }
                e = see(m, dm, p); if (e.empty()) e = see(n, dm, p); if (!e.empty()) { w.fail("SpVecFP", "p=" + str(p) + ": " + str(a) + " * " + str(b) + " " + e); return; }
                V uv = ua; V v2(pp); v2 = (std::size_t) 0; v2 *= conv<P>(a); uv += v2; V vv = ub; V v3(pp); v3 = (std::size_t) 0; v3 *= conv<P>(b); vv += v3;
                I want = 2 * (modI(a, p) * modI(b, p) % p) % p, got = toI(P(uv * vv));
                if (got != want) { w.fail("SpVecFP", "p=" + str(p) + ": dot product of (" + str(a) + "," + str(a) + ") and (" + str(b) + "," + str(b) + ") is " + str(got) + ", expected " + str(want)); return; }
            }
        }
    }
    template<class T> void dispatch(Worker &w, std::istringstream &s, const std::string &k) {
        long long a, b, c;
        if (k == "gcdrow") { s >> a >> b >> c; gcdrow<T>(w, a, b, c); } else if (k == "gcdspecial") { s >> a; gcdspecial<T>(w, (int) a); }
        else if (k == "prime") { s >> a >> b; primerange<T>(w, a, b); }
    }
    void check(Worker &w, const Case &c) override {
        std::istringstream s(c.tag); std::string k, ty; s >> k >> ty; long long a, b; w.sub(c.tag);
        if (k == "fpbfs") { s >> a >> b; if (ty == "int") fpbfs<int>(w, a, b); else if (ty == "long") fpbfs<long>(w, a, b); else if (ty == "short") fpbfs<short>(w, a, b); else fpbfs<Z>(w, a, b); }
        else if (k == "fpbig") { s >> a; if (ty == "int") fpbig<int>(w, a); else if (ty == "long") fpbig<long>(w, a); else if (ty == "short") fpbig<short>(w, a); else fpbig<Z>(w, a); }
        else if (k == "gcdZ") { s >> a; gcdZ(w, (int) a); }
        else if (k == "primeZ") { s >> a >> b; primeZ(w, a, b); }
        else if (ty == "i8") dispatch<signed char>(w, s, k); else if (ty == "short") dispatch<short>(w, s, k); else if (ty == "int") dispatch<int>(w, s, k); else if (ty == "long") dispatch<long>(w, s, k); else if (ty == "llong") dispatch<long long>(w, s, k);
        else if (ty == "uint") dispatch<unsigned>(w, s, k); else if (ty == "ulong") dispatch<unsigned long>(w, s, k);
        w.sample(k, c.tag); w.counters["states"]--; w.counters["chunks"]++;
    }
    void go(Worker &w, const std::string &t) { Case c; c.tag = t; w.visit(c, 0); }
    void enumerate(Worker &w) override {
        auto S = [](long long x) { return std::to_string(x); };
        int R = thorough ? 2500 : 600;
        // the dense square of small pairs, all of a short byte type, the extremes of every type
        for (int a = -R; a <= R; a++) go(w, "gcdrow int " + S(a) + " " + S(-R) + " " + S(R));
        for (int a = -60; a <= 60; a++) for (const char *t : {"long", "llong", "short"}) go(w, std::string("gcdrow ") + t + " " + S(a) + " -60 60");
        for (int a = -128; a <= 127; a++) go(w, "gcdrow i8 " + S(a) + " -128 127");
        for (const char *t : {"int", "long", "llong", "short", "i8"}) for (int r = 0; r < 200; r++) go(w, std::string("gcdspecial ") + t + " " + S(r));
        for (int r = 0; r < 110; r++) go(w, "gcdZ Z " + S(r));
        int N = thorough ? 20000000 : 2000000, st = N / 64;
        for (int lo = 2; lo < N; lo += st) go(w, "prime int " + S(lo) + " " + S(lo + st));
        for (int lo = 2; lo < 60000; lo += 6000) { go(w, "prime long " + S(lo) + " " + S(lo + 6000)); go(w, "prime uint " + S(lo) + " " + S(lo + 6000)); go(w, "primeZ Z " + S(lo) + " " + S(lo + 6000)); }
        for (int lo = 2; lo < 32767; lo += 4096) go(w, "prime short " + S(lo) + " " + S(std::min(lo + 4096, 32768)));
        go(w, "prime i8 2 128");
        go(w, "prime int 2147480000 2147482000"); go(w, "prime int 2147482000 2147483648"); go(w, "prime int 2147390000 2147396000"); go(w, "prime uint 4294965000 4294967296"); go(w, "prime uint 4294836000 4294837000"); go(w, "prime uint 2147483000 2147485000");
        for (long long q : {65521LL, 65537LL, 94906249LL, 94906267LL, 2097143LL, 1048573LL}) { go(w, "prime long " + S(q * q - 1) + " " + S(q * q + 2)); }
        go(w, "prime llong 9007199254740881 9007199254740882"); go(w, "prime llong 9007199254740990 9007199254740998");
        if (thorough) { for (long long x : {9223372036854775783LL, 9223372036854775781LL, 9223372036854775807LL - 1, 9223372030926249001LL}) go(w, "prime llong " + S(x) + " " + S(x + 1)); go(w, "prime ulong 9223372036854775806 9223372036854775807"); }
        else go(w, "prime llong 9223372036854775806 9223372036854775807");
        for (const char *t : {"int", "long", "Z", "short"}) {
            for (int p : {2, 3}) { go(w, std::string("fpbfs ") + t + " " + S(p) + " 2"); go(w, std::string("fpbfs ") + t + " " + S(p) + " 3"); }
            go(w, std::string("fpbfs ") + t + " 5 2"); go(w, std::string("fpbfs ") + t + " 7 1"); go(w, std::string("fpbfs ") + t + " 4 1");
            if (thorough) { go(w, std::string("fpbfs ") + t + " 7 2"); go(w, std::string("fpbfs ") + t + " 2 5"); go(w, std::string("fpbfs ") + t + " 3 4"); }
            for (int p = 2; p <= (thorough ? 300 : 60); p++) go(w, std::string("fpbig ") + t + " " + S(p));
        }
        for (long long p : {17LL, 101LL, 32749LL}) go(w, "fpbig short " + S(p));
        for (long long p : {46337LL, 46349LL, 65537LL, 1000003LL, 1073741789LL, 1073741827LL, 2147483629LL, 2147483647LL}) { go(w, "fpbig int " + S(p)); go(w, "fpbig long " + S(p)); go(w, "fpbig Z " + S(p)); }
        for (long long p : {3037000493LL, 4294967311LL, 4611686018427387847LL, 4611686018427388039LL, 9223372036854775783LL}) { go(w, "fpbig long " + S(p)); }
    }
};
int main(int argc, char **argv) { H h; return run_main(argc, argv, h); }
