// C29: graphs against an edge map.
#include "../core.hpp"
#include <map>
#include "virg/nexus/nx_graph.h"
using namespace pbt;
static void history(Gen &g, bool mat, bool lst)
{
        int n = (int)(g.b(0.5) ? g.u(0, 8) : g.b(0.95) ? g.u(1, 70) : g.u(71, 400)); std::string name = g.text(12); bool null = g.b(0.2); NXGraphAdjMat *M = mat ? nx_graph_new_adj_mat(null ? nullptr : name.c_str(), n) : nullptr; NXGraphAdjLst *L = lst ? nx_graph_new_adj_lst(null ? nullptr : name.c_str(), n) : nullptr; struct F { NXGraphAdjMat *m; NXGraphAdjLst *l; ~F() { nx_graph_free_adj_mat(m); nx_graph_free_adj_lst(l); } } fr{M, L}; std::map<std::pair<int, int>, double> E; int ops = n ? (int)g.u(0, 120) : 0, rep = 0;
        for (int i = 0; i < ops; ++i) { int v = (int)g.u(0, n - 1), w = (int)g.u(0, n - 1); if (!E.empty() && g.b(0.3)) { auto it = E.begin(); std::advance(it, g.u(0, E.size() - 1)); v = it->first.first; w = it->first.second; if (g.b()) std::swap(v, w); } double x = g.b(0.5) ? g.gauss() : g.b(0.3) ? 0.0 : (double)g.any_int(); if (M) nx_graph_insert_adj_mat(M, v, w, x); if (L) nx_graph_insert_adj_lst(L, v, w, x); if (v != w) { auto k = std::make_pair(std::min(v, w), std::max(v, w)); rep += (int)E.count(k); E[k] = x; } }
        g.note("%d vertices, %d insertions, %zu edges, %d repeated", n, ops, E.size(), rep);
        if (M) { CHECK(M->n_v == n && M->n_e == (int)E.size(), "matrix reports %d vertices and %d edges, inserted %d and %zu", M->n_v, M->n_e, n, E.size()); CHECK(std::string(M->name) == (null ? "G" : name), "name"); for (int v = 0; v < n; ++v) for (int w = 0; w < n; ++w) { auto it = E.find({std::min(v, w), std::max(v, w)}); double x = it == E.end() ? NX_ABSENT_EDGE_WEIGHT : it->second; CHECK(M->weights[v * n + w] == x, "weight of %d-%d is %g, expected %g", v, w, M->weights[v * n + w], x); } }
        if (L) { CHECK(L->n_v == n && L->n_e == (int)E.size(), "lists report %d vertices and %d edges, inserted %d and %zu", L->n_v, L->n_e, n, E.size()); CHECK(std::string(L->name) == (null ? "G" : name), "name"); size_t tot = 0; for (int v = 0; v < n; ++v) { std::map<int, double> seen; for (auto *e = L->edges[v]; e; e = e->next) { CHECK(!seen.count(e->v), "vertex %d lists %d twice", v, e->v); seen[e->v] = e->weight; auto it = E.find({std::min(v, e->v), std::max(v, e->v)}); CHECK(it != E.end() && it->second == e->weight && e->v != v, "vertex %d lists %d with weight %g", v, e->v, e->weight); ++tot; CHECK(tot <= 2 * E.size(), "too many list entries"); } for (int w = -1; w <= n; ++w) { auto *e = nx_graph_edge_list_seach(L->edges[v], w); CHECK((e != nullptr) == (seen.count(w) > 0) && (!e || (e->v == w && e->weight == seen[w])), "search for %d in the list of %d", w, v); } } CHECK(tot == 2 * E.size(), "%zu list entries for %zu edges", tot, E.size()); }
        g.nontrivial(rep > 0 && E.size() > 1);
}
FACET(matrix, 1.0, "insertion histories into adjacency matrices; nontrivial: repeated edges") { history(g, true, false); }
FACET(lists, 1.0, "insertion histories into adjacency lists, with searches for every vertex; nontrivial: repeated edges") { history(g, false, true); }
FACET(both, 1.0, "the same history into both representations; nontrivial: repeated edges") { history(g, true, true); }
FACET(release, 0.3, "lists of any length are searched and released completely; nontrivial: several entries")
{
        long before = (long)c_heap_bytes(); { NXGraphEdge *h = nullptr; int n = (int)g.u(0, 200); std::vector<std::pair<int, double>> v; for (int i = 0; i < n; ++i) { int a = (int)g.u(0, 50); double w = g.gauss(); h = nx_graph_edge_new(a, w, h); v.push_back({a, w}); } for (int a = 0; a <= 51; ++a) { auto *e = nx_graph_edge_list_seach(h, a); double w = 0; bool f = false; for (int i = n - 1; i >= 0 && !f; --i) if (v[i].first == a) { f = true; w = v[i].second; } CHECK((e != nullptr) == f && (!e || e->weight == w), "search for %d", a); } nx_graph_edge_list_free(h); NXGraphAdjLst *L = nx_graph_new_adj_lst("x", 30); NXGraphAdjMat *M = nx_graph_new_adj_mat("x", 30); for (int i = 0; i < n; ++i) { int a = (int)g.u(0, 29), b = (int)g.u(0, 29); nx_graph_insert_adj_lst(L, a, b, 1); nx_graph_insert_adj_mat(M, a, b, 1); } nx_graph_free_adj_lst(L); nx_graph_free_adj_mat(M); g.note("%d entries", n); g.nontrivial(n > 1); }
        CHECK((long)c_heap_bytes() == before, "%ld bytes are still allocated", (long)c_heap_bytes() - before);
}
