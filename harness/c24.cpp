// C24: lists of time steps under random schedules and accept/split histories;
// a shadow list predicts every observable.
#include "mon.hpp"
#include "diskpp/mechanics/NewtonSolver/TimeManager.hpp"
using namespace mon; using namespace disk::mechanics;
template<typename T> struct Sh { T a, b; size_t l; };
template<typename T> std::string tn() { return sizeof(T) == 4 ? "float" : "double"; }
template<typename T> T rndtime(Rng& r)
{
    switch (r.integer(0, 3)) { case 0: return T(r.integer(1, 100))/T(10); case 1: return T(r.integer(1, 1000))/T(1000); case 2: return T(std::pow(10., r.real(-6, 6))); default: return T(r.integer(1, 50)); }
}
/* consume the whole list; random splits; compare with the shadow */
template<typename T> void walk(ListOfTimeStep<T> L, T end, const std::vector<std::pair<T,size_t>>& sched, Rng& r, double psplit)
{
    const T eps = std::numeric_limits<T>::epsilon(); size_t total = L.numberOfTimeStep(), want = 0; for (auto& s : sched) want += s.second;
    check("count", total == want && L.numberOfRemainingTimeStep() == want && L.numberOfTimeStepRealized() == 0, cat(tn<T>(), " ", total, " steps, schedule has ", want));
    /* read the schedule from a copy */
    std::list<Sh<T>> sh; { auto c = L; while (!c.empty()) { auto s = c.getCurrentTimeStep(); sh.push_back({s.start_time(), s.end_time(), s.level()}); c.removeCurrentTimeStep(); if (sh.size() > want+5) break; } }
    if (!check("covers.nonempty", !sh.empty() || want == 0)) return;
    check("covers.start", sh.front().a == T(0), cat(sh.front().a)); check("covers.end", sh.back().b == end, cat(tn<T>(), ": last step ends at ", sh.back().b, " requested ", end, " difference ", double(sh.back().b)-double(end)));
    { T prev = 0; size_t k = 0; for (auto& s : sh) { check("covers.contiguous", s.a == prev, cat("step ", k, " starts at ", s.a, " previous ended at ", prev)); check("covers.increasing", s.b > s.a, cat("step ", k)); check("level.initial", s.l == 0); prev = s.b; k++; } }
    { auto it = sh.begin(); T prev = 0; for (auto& [t, n] : sched) { T dt = (t-prev)/T(n); T last = prev; for (size_t i = 0; i < n && it != sh.end(); i++, ++it) { near("equal-steps", std::abs(double(it->b-it->a)-double(dt))/double(dt), 8*double(eps)*(double(std::abs(t))/double(dt)+4), cat("stage to ", t, " with ", n)); last = it->b; } check("user-times", last == t, cat(tn<T>(), ": user time ", t, " replaced by ", last)); prev = t; } }
    size_t done = 0, splits = 0; T now = 0; T dur = 0;
    while (!sh.empty() && done+splits < 400000) {
        check("not-empty", !L.empty()); auto s = L.getCurrentTimeStep(); auto e = sh.front();
        check("current", s.start_time() == e.a && s.end_time() == e.b && s.level() == e.l, cat("[", s.start_time(), ",", s.end_time(), "] level ", s.level(), " expected [", e.a, ",", e.b, "] level ", e.l)); check("increment", s.increment_time() == e.b-e.a);
        check("counters", L.numberOfTimeStep() == sh.size()+done && L.numberOfRemainingTimeStep() == sh.size() && L.numberOfTimeStepRealized() == done && L.indexOfCurrentTimeStep() == done+1);
        T mid = e.a+(e.b-e.a)/T(2);
        if (e.l < 12 && mid-e.a > 8*eps*std::abs(e.b) && r.coin(psplit)) { L.splitCurrentTimeStep(); splits++; sh.pop_front();
            auto s1 = L.getCurrentTimeStep(); check("split.first", s1.start_time() == e.a && std::abs(s1.end_time()-mid) <= 2*eps*std::abs(mid) && s1.end_time() > e.a && s1.end_time() < e.b && s1.level() == e.l+1, cat("[", e.a, ",", e.b, "] first half ends at ", s1.end_time())); mid = s1.end_time(); sh.push_front({mid, e.b, e.l+1}); sh.push_front({e.a, mid, e.l+1}); if (r.coin(0.02)) L.printCurrentTimeStep(); }
        else { check("time-order", e.a == now); now = e.b; dur += e.b-e.a; L.removeCurrentTimeStep(); sh.pop_front(); done++; }
    }
    check("drained", L.empty() && L.numberOfRemainingTimeStep() == 0 && L.numberOfTimeStep() == done && L.numberOfTimeStepRealized() == done); check("ends-at", now == end || want == 0); near("durations", std::abs(double(dur)-double(end))/double(end), 4*double(eps)*(done+4));
    sig(cat(tn<T>(), sched.size(), "/", want, "/", splits > 0));
}
template<typename T> void one(Rng& r)
{
    if (r.coin(0.3)) { T e = rndtime<T>(r); size_t n = r.coin(0.1) ? r.integer(1000, 3000) : r.integer(1, 120); walk<T>(ListOfTimeStep<T>(e, n), e, {{e, n}}, r, r.real(0, 0.5)); return; }
    size_t st = r.integer(1, 6); std::vector<std::pair<T,size_t>> s; std::vector<std::pair<T,int>> si; T t = 0; for (size_t i = 0; i < st; i++) { T n = t+rndtime<T>(r); if (!(n-t > 4000*std::numeric_limits<T>::epsilon()*n)) continue; t = n; size_t k = r.integer(1, 60); s.push_back({t, k}); si.push_back({t, (int)k}); }
    if (r.coin()) walk<T>(ListOfTimeStep<T>(s), t, s, r, r.real(0, 0.5)); else walk<T>(ListOfTimeStep<T>(si), t, s, r, r.real(0, 0.5));
    /* a final time that is one of the user times keeps the schedule up to there */
    size_t k = r.integer(0, s.size()-1); std::vector<std::pair<T,size_t>> p(s.begin(), s.begin()+k+1); walk<T>(ListOfTimeStep<T>(s, s[k].first), s[k].first, p, r, r.real(0, 0.3));
    /* a final time beyond the schedule changes nothing */
    walk<T>(ListOfTimeStep<T>(s, t*2), t, s, r, 0);
}
int main(int argc, char **argv)
{
    init(argc, argv, "C24");
    run_case("default", [&](Rng&) { ListOfTimeStep<double> L; check("default", L.empty() && L.numberOfTimeStep() == 0 && L.numberOfRemainingTimeStep() == 0); TimeStep<double> s; check("default.step", s.start_time() == 0 && s.end_time() == 0 && s.level() == 0 && s.increment_time() == 0); sig("default"); });
    for (size_t n = 1; n <= n_of(300, 2000); n++) run_case(cat("uniform/", n), [&](Rng& r) { for (double e : {1., 0.1, 0.3, 0.7, 10., 1.1, 2.5}) { walk<double>(ListOfTimeStep<double>(e, n), e, {{e, n}}, r, n < 20 ? 0.3 : 0); walk<float>(ListOfTimeStep<float>(float(e), n), float(e), {{float(e), n}}, r, 0); } });
    for (size_t k = 0; k < n_of(400, 6000); k++) run_case(cat("schedule/", k), [&](Rng& r) { one<double>(r); one<float>(r); });
    return finish();
}
