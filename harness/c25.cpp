// C25: rational arithmetic. Every result is compared with the exact value kept
// in 128-bit integers, reduced; integer overflow is watched by UBSan.
#include "mon.hpp"
#include "diskpp/mesh/rational.hpp"
#include "diskpp/mesh/mesh.hpp"
#include "diskpp/geometry/geometry.hpp"
using namespace mon; using W = __int128;
static W g128(W a, W b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { W t = a%b; a = b; b = t; } return a; }
struct X { W n = 0, d = 1; X(W a = 0, W b = 1) { W g = g128(a, b); if (g == 0) g = 1; n = a/g; d = b/g; if (d < 0) { n = -n; d = -d; } } };
static X add(X a, X b) { return X(a.n*b.d+b.n*a.d, a.d*b.d); } static X sub(X a, X b) { return X(a.n*b.d-b.n*a.d, a.d*b.d); } static X mul(X a, X b) { return X(a.n*b.n, a.d*b.d); } static X dvd(X a, X b) { return X(a.n*b.d, a.d*b.n); }
static int cmp(X a, X b) { W l = a.n*b.d, r = b.n*a.d; return l < r ? -1 : l > r; }
template<typename I> using R = disk::rational<I>;
template<typename I> std::string str(const R<I>& r) { return cat((long long)r.num(), "/", (long long)r.den()); }
static std::string str(X x) { return cat((long long)x.n, "/", (long long)x.d); }
/* result of an operation: exact value, lowest terms, positive denominator */
template<typename I> void res(const char *op, const R<I>& got, X want, const std::string& ctx)
{ check(cat("op ", op, ".exact"), (W)got.num() == want.n && (W)got.den() == want.d, cat(ctx, " gives ", str(got), ", exactly ", str(want))); }
template<typename I> void val(const char *op, const R<I>& got, X want, const std::string& ctx)
{ check(cat("op ", op, ".value"), got.den() > 0 && (W)got.num()*want.d == want.n*(W)got.den(), cat(ctx, " gives ", str(got), ", exactly ", str(want))); }

template<typename I> void pairs(I an, I ad, I bn, I bd)
{
    R<I> a(an, ad), b(bn, bd); X xa(an, ad), xb(bn, bd); std::string c = cat((long long)an, "/", (long long)ad, " and ", (long long)bn, "/", (long long)bd);
    val("construct", a, xa, c);
    res("+", a+b, add(xa, xb), c); res("-", a-b, sub(xa, xb), c); res("*", a*b, mul(xa, xb), c); val("neg", -a, X(-xa.n, xa.d), c); val("abs", disk::abs(a), X(xa.n < 0 ? -xa.n : xa.n, xa.d), c);
    if (xb.n) { res("/", a/b, dvd(xa, xb), c); val("inv", disk::inv(b), X(xb.d, xb.n), c); R<I> q = a; auto r = (q /= b); res("/=", q, dvd(xa, xb), c); res("/=.result", R<I>(r), dvd(xa, xb), c); }
    { R<I> q = a; auto& r = (q += b); res("+=", q, add(xa, xb), c); check("+=.reference", &r == &q); } { R<I> q = a; q -= b; res("-=", q, sub(xa, xb), c); } { R<I> q = a; q *= b; res("*=", q, mul(xa, xb), c); }
    { R<I> q = a; q += q; res("+=.self", q, add(xa, xa), c); } { R<I> q = a; q -= q; res("-=.self", q, X(0), c); } { R<I> q = a; q *= q; res("*=.self", q, mul(xa, xa), c); } if (xa.n) { R<I> q = a; q /= q; res("/=.self", q, X(1), c); }
    res("*int", a*bn, mul(xa, X(bn)), c); { R<I> q = a; q *= bn; res("*=int", q, mul(xa, X(bn)), c); } if (bn) { res("/int", a/bn, dvd(xa, X(bn)), c); R<I> q = a; q /= bn; res("/=int", q, dvd(xa, X(bn)), c); }
    { R<I> q = a; q.simplify(); res("simplify", q, xa, c); } check("unchanged", a.num()*(W)1 == (ad < 0 ? -(W)an : (W)an) && b.num() == (bd < 0 ? -bn : bn), c);
    int k = cmp(xa, xb); check("<", (a < b) == (k < 0), c); check("<=", (a <= b) == (k <= 0), c); check(">", (a > b) == (k > 0), c); check(">=", (a >= b) == (k >= 0), c); check("sgn", (disk::sgn(a) == disk::rational_sign::POSITIVE) == (xa.n >= 0), c);
    near("to-double", std::abs(double(a)-double(xa.n)/double(xa.d)), 4e-16*std::abs(double(xa.n)/double(xa.d))); near("to-float", std::abs(float(a)-double(xa.n)/double(xa.d)), 4e-7*std::abs(double(xa.n)/double(xa.d)));
    W g = g128(an, bn); if (g) check("gcd", (W)disk::gcd(an, bn) == g, c); if (an && bn) { W l = (W)an*bn/g; if (l < 0) l = -l; check("lcm", (W)disk::lcm(an, bn) == l, c); }
    std::ostringstream os; os << a; check("print", os.str() == cat((long long)a.num(), "/", (long long)a.den()), os.str());
}
template<typename I> void program(Rng& r, const char *name)
{
    /* a register machine: every register shadows its exact value; an operation whose exact cross products do not fit is not issued */
    const W lim = std::numeric_limits<I>::max(); size_t n = 5; std::vector<R<I>> a; std::vector<X> x; auto fits = [&](W v) { return v <= lim && v >= -lim; };
    auto fresh = [&](size_t k) { I p = r.integer(-1000, 1000), q = r.integer(1, 1000); a[k] = r.coin(0.2) ? R<I>(p) : R<I>(p, q); x[k] = a[k].den() == 1 ? X(p) : X(p, q); };
    a.resize(n); x.resize(n); for (size_t k = 0; k < n; k++) { check("default", a[k].num() == 0 && a[k].den() == 1); fresh(k); }
    size_t ops = r.integer(5, 60), done = 0; std::string log;
    for (size_t o = 0; o < ops; o++) { size_t i = r.integer(0, n-1), j = r.integer(0, n-1), d = r.integer(0, n-1); int op = r.integer(0, 9); I s = r.integer(-20, 20);
        W p = a[i].num(), q = a[i].den(), u = a[j].num(), w = a[j].den(); if (!fits(p*w) || !fits(q*u) || !fits(q*w) || !fits(p*w+q*u) || !fits(p*w-q*u) || !fits(p*u) || !fits(p*s) || !fits(q*s)) { fresh(i); continue; }
        X e; R<I> g; switch (op) { case 0: g = a[i]+a[j]; e = add(x[i], x[j]); break; case 1: g = a[i]-a[j]; e = sub(x[i], x[j]); break; case 2: g = a[i]*a[j]; e = mul(x[i], x[j]); break; case 3: if (!x[j].n) continue; g = a[i]/a[j]; e = dvd(x[i], x[j]); break; case 4: g = a[i]*s; e = mul(x[i], X(s)); break; case 5: if (!s) continue; g = a[i]/s; e = dvd(x[i], X(s)); break; case 6: g = -a[i]; e = X(-x[i].n, x[i].d); break; case 7: g = disk::abs(a[i]); e = X(x[i].n < 0 ? -x[i].n : x[i].n, x[i].d); break; case 8: if (!x[i].n) continue; g = disk::inv(a[i]); e = X(x[i].d, x[i].n); break;
          default: { int k = cmp(x[i], x[j]); check("program.compare", (a[i] < a[j]) == (k < 0) && (a[i] >= a[j]) == (k >= 0)); continue; } }
        log = cat("op ", op, " on ", str(a[i]), " ", str(a[j]), " ", (long long)s); a[d] = g; x[d] = e; done++; val(cat("program-", name).c_str(), a[d], x[d], log); if (op < 6) res(cat("program-", name).c_str(), a[d], x[d], log); }
    sig(cat(name, done));
}
int main(int argc, char **argv)
{
    init(argc, argv, "C25"); long m = n_of(9, 16);
    for (long an = -m; an <= m; an++) run_case(cat("table/", an), [&](Rng&) { for (long ad = -m; ad <= m; ad++) if (ad) for (long bn = -m; bn <= m; bn++) for (long bd = -m; bd <= m; bd++) if (bd) pairs<int>(an, ad, bn, bd); sig(cat("table", an)); });
    for (size_t k = 0; k < n_of(200, 4000); k++) run_case(cat("pairs/", k), [&](Rng& r) { for (int t = 0; t < 20; t++) {
        int b = r.integer(2, 14); int M = 1 << b; auto z = [&](int M) { int v = r.integer(1, M-1); return r.coin() ? v : -v; }; int g = r.coin() ? 1 : r.integer(1, std::max(1, 16000/M)); pairs<int>(r.coin(0.1) ? 0 : z(M)*g/1 , z(M), r.coin(0.1) ? 0 : z(M), z(M));
        long L = 1L << r.integer(3, 30); auto zl = [&]() { long v = r.integer(1, L-1); return r.coin() ? v : -v; }; pairs<int64_t>(zl(), zl(), zl(), zl()); sig(cat("pairs", b)); } });
    for (size_t k = 0; k < n_of(300, 8000); k++) run_case(cat("program/", k), [&](Rng& r) { program<int>(r, "int"); program<int64_t>(r, "int64"); });
    /* refused */
    auto ref = [&](const char *w, auto f) { run_case(cat("refuse/", w), [&](Rng&) { auto s = isolated([&]() { try { f(); return 5; } catch (const std::exception&) { return 3; } }); bool ok = (WIFSIGNALED(s.status) && WTERMSIG(s.status) == SIGABRT) || (WIFEXITED(s.status) && WEXITSTATUS(s.status) == 3); check(cat("refuses.", w), ok, cat("status ", s.status, " ", s.text.substr(0, 200))); sig(w); }); };
    static volatile int z = 0;
    ref("zero denominator", [] { R<int> a(1, z); return a.den(); }); ref("inverse of zero", [] { auto a = disk::inv(R<int>(z)); return a.den(); }); ref("division by zero", [] { auto a = R<int>(1,2)/R<int>(z, 3); return a.den(); }); ref("division by integer zero", [] { auto a = R<int>(1,2)/int(z); return a.den(); }); ref("in place division by zero", [] { R<int> a(3,7); a /= R<int>(z); return a.den(); });
    /* geometry in rational coordinates is exact */
    for (size_t k = 0; k < n_of(100, 1000); k++) run_case(cat("triangle/", k), [&](Rng& r) {
        using I = int64_t; using Ms = disk::simplicial_mesh<R<I>, 2>; using Pt = Ms::point_type; std::vector<std::pair<X,X>> p; Ms m; auto st = m.backend_storage();
        for (int i = 0; i < 3; i++) { I a = r.integer(-40, 40), b = r.integer(1, 12), c = r.integer(-40, 40), d = r.integer(1, 12); p.push_back({X(a,b), X(c,d)}); st->points.push_back(Pt(R<I>(a,b), R<I>(c,d))); }
        st->surfaces.push_back(typename Ms::surface_type({disk::point_identifier<2>(0), disk::point_identifier<2>(1), disk::point_identifier<2>(2)}));
        X s = dvd(sub(mul(sub(p[1].first, p[0].first), sub(p[2].second, p[0].second)), mul(sub(p[2].first, p[0].first), sub(p[1].second, p[0].second))), X(2)); auto cl = *m.cells_begin();
        val("area.signed", disk::measure(m, cl, true), s, ""); val("area", disk::measure(m, cl), X(s.n < 0 ? -s.n : s.n, s.d), ""); sig(cat("triangle", s.n > 0, s.n == 0)); });
    return finish();
}
