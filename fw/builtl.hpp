// The caller's graph with list-stored vertices: the address order of vertices and edges is chosen.
#pragma once
#include "built.hpp"
namespace vf {
typedef boost::adjacency_list<boost::vecS, boost::listS, boost::undirectedS, boost::property<boost::vertex_index_t, std::size_t>, boost::property<boost::edge_weight_t, double> > ListBase;
struct ListGraph : ListBase {};   // descriptors are addresses; the index map is a stateful read-only map
}
namespace boost {
template<> struct graph_traits<vf::ListGraph> : graph_traits<vf::ListBase> {};
template<> struct property_map<vf::ListGraph, vertex_index_t> { typedef property_map<vf::ListBase, vertex_index_t>::const_type type, const_type; };
template<> struct property_map<vf::ListGraph, edge_weight_t> : property_map<vf::ListBase, edge_weight_t> {};
}
namespace vf {
struct BuiltL {
    typedef ListGraph Graph;
    typedef boost::graph_traits<Graph>::edge_descriptor Edge; typedef boost::graph_traits<Graph>::vertex_descriptor Vertex;
    Graph g; std::vector<Edge> ed; std::vector<Vertex> vs; std::map<void*, int> id; size_t mark = 0;
    static int scatter(int i, int n, int seed) { return 8 * ((n - 1 - i + seed) % n) + (i * i + seed * (i + 1)) % 8; }
    explicit BuiltL(const Case &c) {
        int m = c.g.m(), n = c.g.n; std::vector<int> eo(m), vo(n);
        for (int i = 0; i < m; i++) eo[i] = c.ptr == 'd' ? m - 1 - i : (c.ptr == 'p' && (int) c.perm.size() == m) ? c.perm[i] : i;
        for (int i = 0; i < n; i++) vo[i] = c.ptr == 'd' ? n - 1 - i : c.ptr == 'p' ? scatter(i, n, m ? eo[0] + eo[m / 2] * 3 : 1) : i;   // scattered: the order of a hash table of addresses varies too
        mark = arena_mark(); Arena a;
        a.nodesz = sizeof(ListBase::stored_vertex); a.slotsz = (a.nodesz + 15) / 16 * 16; a.n = n; a.order = vo.data(); a.base = arena_alloc(a.slotsz * (8 * n + 8));
        for (int i = 0; i < n; i++) { tl_armed = &a; Vertex v = boost::add_vertex(static_cast<ListBase&>(g)); tl_armed = nullptr; boost::put(boost::vertex_index, static_cast<ListBase&>(g), v, (size_t) i); vs.push_back(v); }
        Arena b; b.nodesz = sizeof(std::_List_node<typename std::decay<decltype(*g.m_edges.begin())>::type>); b.slotsz = (b.nodesz + 15) / 16 * 16; b.n = m; b.order = eo.data(); b.base = arena_alloc(b.slotsz * (m + 1));
        for (int i = 0; i < m; i++) { tl_armed = &b; Edge e = boost::add_edge(vs[c.g.e[i].u], vs[c.g.e[i].v], c.g.e[i].w, static_cast<ListBase&>(g)).first; tl_armed = nullptr; ed.push_back(e); id[(void*) e.get_property()] = i; }
        for (int i = 0; i + 1 < n; i++) if ((vo[i] < vo[i + 1]) != (vs[i] < vs[i + 1])) { fprintf(stderr, "arena order error (vertices)\n"); abort(); }
        for (int i = 0; i + 1 < m; i++) if ((eo[i] < eo[i + 1]) != ((const char*) ed[i].get_property() < (const char*) ed[i + 1].get_property())) { fprintf(stderr, "arena order error (edges)\n"); abort(); }
    }
    ~BuiltL() { g.clear(); arena_release(mark); }
    BuiltL(const BuiltL&) = delete;
    int idof(const Edge &e) const { auto it = id.find((void*) e.get_property()); return it == id.end() ? -1 : it->second; }
};
}
