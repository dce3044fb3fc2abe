// The caller: builds a boost graph from a presentation exactly as a user would.
#pragma once
#include "wgraph.hpp"
#include "arena.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <boost/property_map/property_map.hpp>
#include <list>
#include <map>
#include <memory>
#include <set>

namespace vf {

typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, double> > GraphD;
typedef boost::adjacency_list<boost::vecS, boost::vecS, boost::undirectedS, boost::no_property, boost::property<boost::edge_weight_t, int> > GraphI;

template<class W> struct GraphOf;
template<> struct GraphOf<double> { typedef GraphD type; };
template<> struct GraphOf<int> { typedef GraphI type; };

template<class W>
struct Built {
    typedef typename GraphOf<W>::type Graph;
    typedef typename boost::graph_traits<Graph>::edge_descriptor Edge;
    typedef typename boost::property_map<Graph, boost::edge_weight_t>::type WM;
    Graph g;
    std::vector<Edge> ed;
    std::map<Edge, int> id;
    size_t mark = 0;

    explicit Built(const Case &c, bool use_arena = true) {
        int m = c.g.m();
        std::vector<int> order(m);
        for (int i = 0; i < m; i++) order[i] = c.ptr == 'd' ? m - 1 - i : (c.ptr == 'p' && (int) c.perm.size() == m) ? c.perm[i] : i;
        mark = arena_mark();
        Arena a;
        for (int i = 0; i < c.g.n; i++) boost::add_vertex(g);
        if (use_arena && c.ptr != 'm' && m) {
            a.nodesz = node_size(); a.slotsz = (a.nodesz + 15) / 16 * 16; a.n = m; a.order = order.data();
            a.base = arena_alloc(a.slotsz * m);
        }
        for (int i = 0; i < m; i++) {
            if (a.base) tl_armed = &a;
            Edge e = boost::add_edge(c.g.e[i].u, c.g.e[i].v, (W) c.g.e[i].w, g).first;
            tl_armed = nullptr;
            ed.push_back(e);
        }
        for (int i = 0; i < m; i++) id[ed[i]] = i;
        if (a.base) for (int i = 0; i < m; i++) for (int j = i + 1; j < m && j < i + 2; j++)
            if ((order[i] < order[j]) != ((const char*) ed[i].get_property() < (const char*) ed[j].get_property())) { fprintf(stderr, "arena order error\n"); abort(); }
    }
    ~Built() { g.clear(); arena_release(mark); }
    Built(const Built&) = delete;

    static size_t node_size() {
        static size_t sz = 0;
        if (!sz) { // find out what one edge allocates in the edge list
            sz = sizeof(std::_List_node<typename edge_value<Graph>::type>);
        }
        return sz;
    }
    template<class G> struct edge_value { typedef typename std::decay<decltype(*std::declval<G>().m_edges.begin())>::type type; };

    // -1 when the descriptor is not one of the caller's edges
    int idof(const Edge &e) const {
        auto it = id.find(e);
        if (it == id.end()) return -1;
        const Edge &o = it->first;
        if (!((o.m_source == e.m_source && o.m_target == e.m_target) || (o.m_source == e.m_target && o.m_target == e.m_source))) return -1;
        return it->second;
    }
};

struct Out {
    double ret = 0;
    bool threw = false; std::string what;
    std::vector<std::vector<int>> cycles; // edge ids, -1 = foreign descriptor
};

template<class W, class L> inline void collect(const Built<W> &b, const L &cycles, Out &o) {
    o.cycles.reserve(cycles.size());
    for (auto &c : cycles) {
        std::vector<int> v;
        for (auto &e : c) v.push_back(b.idof(e));
        o.cycles.push_back(std::move(v));
    }
}

} // namespace vf
