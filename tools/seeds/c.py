H='''#include <cstdio>
#include <memory>
#include <utility>
#include <vector>
#include <algorithm>
#include <daw/daw_graph.h>
#include <daw/daw_graph_algorithm.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
G="include/daw/daw_graph.h"
A="include/daw/daw_graph_algorithm.h"
seed("c07-remove-mutual", "C07", G, [("""			for( auto n_id : node.outgoing_edges( ) ) {
				get_node( n_id )""","""			for( auto n_id : node.outgoing_edges( ) ) {
				if( node.incoming_edges( ).count( n_id ) > 0 ) {
					continue; // already unlinked above
				}
				get_node( n_id )""")],
 "removing a node that has edges in both directions with a neighbour", "the neighbour keeps an incoming edge from the removed node",
 H+'''int main(){ daw::graph_t<int> g; auto a=g.add_node(1); auto b=g.add_node(2); g.add_undirected_edge(a,b); g.remove_node(a); CHECK(g.get_node(b).incoming_edges().empty()); CHECK(g.find_roots().size()==1); return 0; }
''')
seed("c07-id-reuse", "C07", G, [("			auto const id = cur_id;\n			++cur_id;","			auto id = m_nodes.size( );\n			if( id < cur_id and m_nodes.count( id ) > 0 ) {\n				id = cur_id;\n			}\n			++cur_id;")],
 "adding a node after the most recently added node was removed", "the identity of a removed node is handed out again",
 H+'''int main(){ daw::graph_t<int> g; auto a=g.add_node(1); auto b=g.add_node(2); g.remove_node(b); auto c=g.add_node(3); CHECK(c!=b); CHECK(c!=a); CHECK(!g.has_node(b)); return 0; }
''')
seed("c08-three-parents", "C08", A, [("""				for( auto ex_id : excluded_edges[n_id] ) {
					incoming.erase( ex_id );
				}
				return not incoming.empty( );""","""				return excluded_edges[n_id].size( ) <
				       ( incoming.size( ) > 2 ? 2 : incoming.size( ) );""")],
 "a node with three or more predecessors", "it is released after the second predecessor, before the third",
 H+'''int main(){ daw::graph_t<int> g; std::vector<daw::node_id_t> n; for(int i=0;i<4;++i) n.push_back(g.add_node(i)); for(int i=0;i<3;++i) g.add_directed_edge(n[i],n[3]);
 std::vector<int> r; daw::topological_sorted_walk(g,[&](auto const&x){r.push_back(x.value());}); CHECK(r.size()==4); CHECK(r[3]==3); return 0; }
''')
seed("c08-mst-self-loop", "C08", A, [("""					graph.remove_directed_edge( *current_id.first, current_id.second );""","""					if( *current_id.first != current_id.second ) {
						graph.remove_directed_edge( *current_id.first,
						                            current_id.second );
					}""")],
 "a graph with a self edge on a node below the root", "the self edge survives, so the result is not a tree",
 H+'''int main(){ daw::graph_t<int> g; auto a=g.add_node(1); auto b=g.add_node(2); g.add_directed_edge(a,b); g.add_directed_edge(b,b); daw::mst(g); CHECK(g.get_node(b).incoming_edges().size()==1); CHECK(g.get_node(b).outgoing_edges().empty()); return 0; }
''')
