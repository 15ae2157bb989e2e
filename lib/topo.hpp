// Topology of a mesh against brute force adjacency: shared by C01, C19, C20.
#pragma once
#include "meshes.hpp"
namespace topo {
using namespace vm;
template<typename E> std::vector<size_t> ids(const E& e) { std::vector<size_t> v; for (auto p : e.point_ids()) v.push_back(p); return v; }

template<typename M>
void check_mesh(M& m, const std::string& desc, bool full_storage = true, bool interfaces = false /* faces marked as internal boundaries are expected */)
{
    using namespace mon;
    const M& cm = m;
    auto st = m.backend_storage();
    const size_t nc = m.cells_size(), nf = m.faces_size(), np = m.points_size();
    std::string S = std::string(mname<M>::v) + ".";
    check(S+"nonempty", nc > 0 && nf > 0 && np > 0);

    /* element tables strictly sorted: what lookup() relies on */
    { auto a = m.cells_begin(); bool ok = true; for (size_t i = 1; i < nc; i++) ok = ok && (*std::next(a,i-1) < *std::next(a,i)); check(S+"cells-strictly-sorted", ok, desc); }
    { auto a = m.faces_begin(); bool ok = true; for (size_t i = 1; i < nf; i++) ok = ok && (*std::next(a,i-1) < *std::next(a,i)); check(S+"faces-strictly-sorted", ok, desc); }
    check(S+"boundary-table-size", st->boundary_info.size() == nf, desc);
    check(S+"subdomain-table-size", st->subdomain_info.size() == nc, desc);

    /* index <-> element round trips */
    std::vector<std::vector<size_t>> owners(nf);
    size_t ci = 0;
    std::vector<bool> ptused(np, false);
    for (auto& cl : cm) {
        check(S+"cell-lookup", (size_t)cm.lookup(cl) == ci, desc);
        check(S+"cell-offset", offset(cm, cl) == ci, desc);
        check(S+"cell-by-id", cm[typename M::cell::id_type(ci)] == cl, desc);
        if (st->subdomain_info.size() == nc) check(S+"domain-info", cm.domain_info(cl).id() == st->subdomain_info[ci].id(), desc);
        auto fcs = faces(cm, cl); auto fids = faces_id(cm, cl);
        check(S+"howmany-faces", fcs.size() == howmany_faces(cm, cl) && fids.size() == fcs.size(), desc);
        auto cids = ids(cl); std::set<size_t> cset(cids.begin(), cids.end()), fset;
        check(S+"cell-points-distinct", cset.size() == cids.size(), desc);
        for (auto p : cids) { check(S+"point-in-range", p < np, desc); if (p < np) ptused[p] = true; }
        std::set<size_t> seen;
        for (size_t k = 0; k < fcs.size(); k++) {
            auto w = find_element_id(cm.faces_begin(), cm.faces_end(), fcs[k]);
            check(S+"face-of-cell-exists", w.first, desc);
            if (!w.first) continue;
            size_t fi = w.second;
            check(S+"faces-id-agrees", (size_t)fids[k] == fi, desc);
            check(S+"face-lookup", (size_t)cm.lookup(fcs[k]) == fi && offset(cm, fcs[k]) == fi, desc);
            check(S+"face-listed-once", seen.insert(fi).second, desc);
            owners[fi].push_back(ci);
            for (auto p : ids(fcs[k])) fset.insert(p);
        }
        check(S+"face-points-are-cell-points", fset == cset, desc);
        sig(cell_sig(cm, cl));
        ci++;
    }
    { bool ok = true; for (size_t i = 0; i < np; i++) ok = ok && ptused[i]; check(S+"no-stray-points", ok, desc); }

    /* face ownership against boundary marks */
    std::vector<bool> bd(nf, false); for (size_t f = 0; f < nf && f < st->boundary_info.size(); f++) bd[f] = owners[f].size() == 1 || (interfaces && owners[f].size() == 2 && st->boundary_info[f].is_internal());
    size_t nb = 0, fi = 0; std::map<size_t,size_t> perid;
    for (auto it = cm.faces_begin(); it != cm.faces_end(); ++it, ++fi) {
        size_t o = owners[fi].size();
        check(S+"face-has-1-or-2-owners", o == 1 || o == 2, cat(desc, " face ", fi, " owners ", o));
        bool b = cm.is_boundary(*it);
        check(S+"boundary-iff-one-owner", b == bd[fi], cat(desc, " face ", fi));
        check(S+"is-boundary-overloads", b == cm.is_boundary(typename M::face::id_type(fi)), desc);
        check(S+"boundary-info", cm.boundary_info(*it).is_boundary() == b && cm.boundary_info(*it).id() == st->boundary_info[fi].id(), desc);
        check(S+"not-internal-boundary", !(b && cm.boundary_info(*it).is_internal()) || (interfaces && o == 2), desc);
        bool threw = false; size_t bid = 0;
        try { bid = cm.boundary_id(*it); check(S+"boundary-id-overloads", bid == cm.boundary_id(typename M::face::id_type(fi)), desc); } catch (const std::invalid_argument&) { threw = true; }
        check(S+"boundary-id-throws-iff-internal", threw == !b, desc);
        if (b) { nb++; perid[bid]++; check(S+"boundary-id-value", bid == st->boundary_info[fi].id(), desc); }
    }
    check(S+"boundary-count", cm.boundary_faces_size() == nb && cm.internal_faces_size() == nf - nb, desc);
    auto bl = cm.boundary_id_list();
    { std::vector<size_t> want; for (auto& [k,v] : perid) want.push_back(k); check(S+"boundary-id-list", bl == want, desc); }
    for (auto& [k, v] : perid) {
        check(S+"boundary-count-by-id", cm.boundary_faces_size(k) == v, desc);
        size_t n = 0; for (auto it = m.boundary_faces_begin(k); it != m.boundary_faces_end(k); ++it) { n++; check(S+"boundary-iterator-by-id", m.boundary_id(*it) == k, desc); }
        check(S+"boundary-iterator-by-id-count", n == v, desc);
    }
    { size_t n = 0; bool ok = true; size_t last = 0; bool first = true;
      for (auto it = m.boundary_faces_begin(); it != m.boundary_faces_end(); ++it) { n++; size_t f = offset(cm, *it); ok = ok && bd[f] && (first || f > last); last = f; first = false; }
      check(S+"boundary-iterator", ok && n == nb, desc);
      size_t n2 = 0; ok = true;
      for (auto it = m.internal_faces_begin(); it != m.internal_faces_end(); ++it) { n2++; ok = ok && !bd[offset(cm, *it)]; }
      check(S+"internal-iterator", ok && n2 == nf - nb, desc);
      size_t n3 = 0; for (auto it = cm.boundary_faces_begin(); it != cm.boundary_faces_end(); ++it) n3++;
      check(S+"const-boundary-iterator", n3 == nb, desc); }
    for (auto& cl : cm) { bool any = false; for (auto& fc : faces(cm, cl)) any = any || bd[offset(cm, fc)]; check(S+"has-faces-on-boundary", has_faces_on_boundary(cm, cl) == any, desc); }

    /* neighbourhood is symmetric and agrees with ownership */
    auto cv = connectivity_via_faces(cm);
    ci = 0;
    for (auto& cl : cm) {
        for (auto& fc : faces(cm, cl)) {
            auto [n, has] = cv.neighbour_via(cm, cl, fc);
            auto& o = owners[offset(cm, fc)];
            check(S+"neighbour-exists-iff-internal", has == (o.size() == 2), desc);
            if (has) {
                size_t want = o[0] == ci ? o[1] : o[0];
                check(S+"neighbour-is-the-other-owner", offset(cm, n) == want, desc);
                auto [back, h2] = cv.neighbour_via(cm, n, fc);
                check(S+"neighbour-symmetric", h2 && offset(cm, back) == ci, desc);
            }
        }
        ci++;
    }

    /* every domain used here is a ball: Euler characteristic 1 */
    if (full_storage) {
        long chi;
        if constexpr (M::dimension == 1) chi = (long)np - (long)nc;
        else if constexpr (M::dimension == 2) chi = (long)np - (long)nf + (long)nc;
        else chi = (long)np - (long)st->edges.size() + (long)nf - (long)nc;
        check(S+"euler", chi == 1, cat(desc, " chi=", chi));
        check(S+"nodes-match-points", st->nodes.size() == np, cat(desc, " nodes=", st->nodes.size()));
        if constexpr (M::dimension == 3) {
            /* the edge table is what the faces imply */
            bool ok = true; for (size_t i = 1; i < st->edges.size(); i++) ok = ok && st->edges[i-1] < st->edges[i];
            check(S+"edges-strictly-sorted", ok, desc);
            std::set<std::pair<size_t,size_t>> want, got;
            for (auto it = cm.faces_begin(); it != cm.faces_end(); ++it) {
                auto f = ids(*it); for (size_t i = 0; i < f.size(); i++) want.insert(std::minmax(f[i], f[(i+1)%f.size()]));
            }
            for (auto& e : st->edges) { auto f = ids(e); if (f.size() == 2) got.insert(std::minmax(f[0], f[1])); }
            check(S+"edge-table", want == got && got.size() == st->edges.size(), desc);
        }
    }
    sig(cat(mname<M>::v, "/nc", nc, "/nf", nf, "/nb", nb, "/", full_storage));
}
}
using topo::check_mesh; using topo::ids;
