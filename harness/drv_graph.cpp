// Conformance driver for daw::graph_t and its algorithms (spec/Graph.tla)
#include "trace.h"

#include <daw/daw_graph.h>
#include <memory>
#include <daw/daw_graph_algorithm.h>

#include <string>

using vt::Int;
using vt::Op;
using vt::Res;

template<typename T>
struct Conv {
	static T mk( Int x ) {
		return T( x );
	}
	static Int val( T const &x ) {
		return static_cast<Int>( x );
	}
};
template<>
struct Conv<std::string> {
	static std::string mk( Int x ) {
		return std::string( 30, static_cast<char>( 'a' + x ) );
	}
	static Int val( std::string const &x ) {
		return x.empty( ) ? -1 : x[0] - 'a';
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

template<typename T>
struct World : Base {
	using G = daw::graph_t<T>;
	G g{ };
	std::size_t m;
	static daw::node_id_t N( Int i ) {
		return daw::node_id_t( static_cast<std::size_t>( i ) );
	}
	Int num( daw::node_id_t id ) const {
		for( std::size_t i = 0; i < m; ++i )
			if( daw::node_id_t( i ) == id )
				return static_cast<Int>( i );
		return -1;
	}
	World( vt::Cfg const &c )
	  : m( static_cast<std::size_t>( c.i( "m" ) ) ) {
		auto it = c.m.find( "v" );
		for( auto const &x : it->second.v )
			(void)g.add_node( Conv<T>::mk( x.n ) );
		it = c.m.find( "e" );
		for( auto const &p : it->second.v )
			g.add_directed_edge( N( p.v.at( 0 ).n ), N( p.v.at( 1 ).n ) );
	}
	void dump( Res &r ) {
		G const &cg = g;
		r.push_back( static_cast<Int>( cg.size( ) ) );
		if( cg.empty( ) != ( cg.size( ) == 0 ) )
			r.back( ) = -1;
		for( std::size_t i = 0; i < m; ++i ) {
			auto id = daw::node_id_t( i );
			if( not cg.has_node( id ) ) {
				r.insert( r.end( ), { 0, 0, 0, 0 } );
				continue;
			}
			auto const &raw = cg.get_raw_node( id );
			auto n = cg.get_node( id );
			auto mn = g.get_node( id );
			auto mask = [&]( auto const &edges ) {
				Int x = 0;
				for( auto e : edges ) {
					Int b = num( e );
					if( b < 0 )
						return Int( -1 );
					x |= Int( 1 ) << b;
				}
				return x;
			};
			Int v = Conv<T>::val( n.value( ) );
			if( Conv<T>::val( mn.value( ) ) != v or Conv<T>::val( raw.value( ) ) != v or n.id( ) != id or raw.id( ) != id or
			    mn.id( ) != id or n.graph( ) != &g or n.empty( ) or not mn or mn.empty( ) )
				v = -99;
			r.insert( r.end( ), { 1, v, mask( n.outgoing_edges( ) ), mask( mn.incoming_edges( ) ) } );
			if( mask( raw.outgoing_edges( ) ) != r[r.size( ) - 2] or mask( raw.incoming_edges( ) ) != r.back( ) )
				r.back( ) = -2;
		}
	}
	template<typename F>
	void with_graph( Int constant, F f ) {
		if( constant )
			f( static_cast<G const &>( g ) );
		else
			f( g );
	}
	struct NodeLess {
		template<typename A, typename C>
		bool operator( )( A const &a, C const &b ) const {
			return Conv<T>::val( a.value( ) ) < Conv<T>::val( b.value( ) );
		}
	};
	struct NodeGreater {
		template<typename A, typename C>
		bool operator( )( A const &a, C const &b ) const {
			return Conv<T>::val( a.value( ) ) > Conv<T>::val( b.value( ) );
		}
	};
	struct ValLess {
		bool operator( )( T const &a, T const &b ) const {
			return Conv<T>::val( a ) < Conv<T>::val( b );
		}
	};
	struct ValGreater {
		bool operator( )( T const &a, T const &b ) const {
			return Conv<T>::val( a ) > Conv<T>::val( b );
		}
	};
	template<typename F>
	void with_order( Int o, F f ) {
		if( o == 1 )
			f( NodeLess{ } );
		else if( o == 2 )
			f( NodeGreater{ } );
		else
			f( daw::graph_alg_impl::NoSort{ } );
	}
	template<typename R>
	void range( R const &rng, Int f, Res &x ) {
		x.push_back( static_cast<Int>( rng.size( ) ) );
		x.push_back( rng.empty( ) );
		std::size_t guard = 0;
		auto walk = [&]( auto b, auto e ) {
			for( ; b != e and guard < 1000; ++b, ++guard )
				x.push_back( num( ( *b ).id( ) ) );
		};
		if( f >= 2 )
			walk( rng.rbegin( ), rng.rend( ) );
		else
			walk( rng.begin( ), rng.end( ) );
	}
	void op( Op const &o, Res &r ) override {
		Res x;
		auto ids = [&]( std::vector<daw::node_id_t> const &v ) {
			for( auto id : v )
				x.push_back( num( id ) );
		};
		if( o.is( "add" ) ) {
			x.push_back( num( g.add_node( Conv<T>::mk( o.i( 0 ) ) ) ) );
		} else if( o.is( "rm" ) ) {
			g.remove_node( N( o.i( 0 ) ) );
		} else if( o.is( "de" ) ) {
			g.add_directed_edge( N( o.i( 0 ) ), N( o.i( 1 ) ) );
		} else if( o.is( "ue" ) ) {
			g.add_undirected_edge( N( o.i( 0 ) ), N( o.i( 1 ) ) );
		} else if( o.is( "rde" ) ) {
			g.remove_directed_edge( N( o.i( 0 ) ), N( o.i( 1 ) ) );
		} else if( o.is( "re" ) ) {
			g.remove_edges( N( o.i( 0 ) ), N( o.i( 1 ) ) );
		} else if( o.is( "set" ) ) {
			g.get_node( N( o.i( 0 ) ) ).value( ) = Conv<T>::mk( o.i( 1 ) );
		} else if( o.is( "copy" ) ) {
			if( o.i( 0 ) == 0 ) {
				G c = g;
				g = G{ };
				g = c;
			} else if( o.i( 0 ) == 1 ) {
				G c = std::move( g );
				g = std::move( c );
			} else { // changes to a copy stay in the copy
				G c = g;
				auto all = c.find( []( auto const & ) {
					return true;
				} );
				for( auto id : all )
					c.remove_node( id );
				if( c.size( ) != 0 or not c.empty( ) )
					++vt::errs;
			}
		} else if( o.is( "has" ) ) {
			x.push_back( g.has_node( N( o.i( 0 ) ) ) );
		} else if( o.is( "fbv" ) ) {
			if constexpr( std::is_same_v<T, vt::Tracked<true>> )
				ids( g.find_by_value( Conv<T>::mk( o.i( 0 ) ), []( T const &a, T const &b ) {
					return a.v == b.v;
				} ) );
			else
				ids( g.find_by_value( Conv<T>::mk( o.i( 0 ) ) ) );
		} else if( o.is( "fbv_c" ) ) {
			ids( g.find_by_value( Conv<T>::mk( o.i( 0 ) ), ValLess{ } ) );
		} else if( o.is( "roots" ) ) {
			ids( g.find_roots( ) );
		} else if( o.is( "leaves" ) ) {
			ids( g.find_leaves( ) );
		} else if( o.is( "find" ) ) {
			Int lo = o.i( 0 );
			with_graph( o.i( 1 ), [&]( auto &gr ) {
				ids( gr.find( [lo]( auto const &n ) {
					return Conv<T>::val( n.value( ) ) >= lo;
				} ) );
			} );
		} else if( o.is( "visit" ) ) {
			Int lo = o.i( 0 );
			auto pred = [lo]( auto const &n ) {
				return Conv<T>::val( n.value( ) ) < lo;
			};
			if( o.i( 1 ) == 0 )
				static_cast<G const &>( g ).visit( pred, [&]( auto const &n ) {
					x.push_back( num( n.id( ) ) );
				} );
			else if( o.i( 1 ) == 1 )
				g.visit( pred, [&]( auto &&n ) {
					x.push_back( num( n.id( ) ) );
					if constexpr( std::is_assignable_v<decltype( ( n.value( ) ) ), T> )
						n.value( ) = Conv<T>::mk( lo );
				} );
			else if( o.i( 1 ) == 2 )
				static_cast<G const &>( g ).visit( [&]( auto const &n ) {
					x.push_back( num( n.id( ) ) );
				} );
			else
				g.visit( [&]( auto &&n ) {
					x.push_back( num( n.id( ) ) );
				} );
		} else if( o.is( "cmp" ) ) {
			auto a = g.get_node( N( o.i( 0 ) ) );
			auto b = g.get_node( N( o.i( 1 ) ) );
			auto ca = static_cast<G const &>( g ).get_node( N( o.i( 0 ) ) );
			auto cb = static_cast<G const &>( g ).get_node( N( o.i( 1 ) ) );
			auto six = [&]( auto &p, auto &q ) {
				x = { p == q, p != q, p < q };
			};
			switch( o.i( 2 ) ) {
			case 0: six( a, b ); break;
			case 1: six( a, cb ); break;
			case 2: six( ca, b ); break;
			case 3: six( ca, cb ); break;
			default: { // proxies of equal graphs that are different objects never compare equal
				G other = g;
				auto ob = other.get_node( N( o.i( 1 ) ) );
				bool eq = a == ob;
				bool ne = a != ob;
				if( eq or not ne )
					++vt::errs;
				x = { a.id( ) == b.id( ), a.id( ) != b.id( ) };
			}
			}
		} else if( o.is( "topo" ) ) {
			with_order( o.i( 0 ), [&]( auto ord ) {
				with_graph( o.i( 1 ), [&]( auto &gr ) {
					auto f = [&]( auto const &n ) {
						x.push_back( num( n.id( ) ) );
					};
					if constexpr( std::is_same_v<decltype( ord ), daw::graph_alg_impl::NoSort> )
						daw::topological_sorted_walk( gr, f );
					else
						daw::topological_sorted_walk( gr, f, ord );
				} );
			} );
		} else if( o.is( "rtopo" ) ) {
			with_order( o.i( 0 ), [&]( auto ord ) {
				with_graph( o.i( 1 ), [&]( auto &gr ) {
					daw::reverse_topological_sorted_walk(
					  gr,
					  [&]( auto const &n ) {
						  x.push_back( num( n.id( ) ) );
					  },
					  ord );
				} );
			} );
		} else if( o.is( "topo_rng" ) ) {
			with_order( o.i( 0 ), [&]( auto ord ) {
				if( o.i( 1 ) % 2 )
					range( daw::make_topological_sorted_range( static_cast<G const &>( g ), ord ), o.i( 1 ), x );
				else
					range( daw::make_topological_sorted_range( g, ord ), o.i( 1 ), x );
			} );
		} else if( o.is( "rtopo_rng" ) ) {
			with_order( o.i( 0 ), [&]( auto ord ) {
				if( o.i( 1 ) % 2 )
					range( daw::make_reverse_topological_sorted_range( static_cast<G const &>( g ), ord ), o.i( 1 ), x );
				else
					range( daw::make_reverse_topological_sorted_range( g, ord ), o.i( 1 ), x );
			} );
		} else if( o.is( "bfs" ) or o.is( "dfs" ) ) {
			auto f = [&]( auto const &n ) {
				if( x.size( ) < 5000 )
					x.push_back( num( n.id( ) ) );
			};
			bool bfs = o.is( "bfs" );
			auto id = N( o.i( 0 ) );
			with_graph( o.i( 2 ), [&]( auto &gr ) {
				if( o.i( 1 ) == 1 ) {
					if( bfs )
						daw::bfs_walk( gr, id, f, ValLess{ } );
					else
						daw::dfs_walk( gr, id, f, ValLess{ } );
				} else if( o.i( 1 ) == 2 ) {
					if( bfs )
						daw::bfs_walk( gr, id, f, ValGreater{ } );
					else
						daw::dfs_walk( gr, id, f, ValGreater{ } );
				} else {
					if( bfs )
						daw::bfs_walk( gr, id, f );
					else
						daw::dfs_walk( gr, id, f );
				}
			} );
		} else if( o.is( "mst" ) ) {
			daw::mst( g );
		} else
			vt::bad_op( o );
		dump( r );
		r.insert( r.end( ), x.begin( ), x.end( ) );
	}
};

struct Any {
	Base *w = nullptr;
	static inline std::string variant;
	Any( vt::Cfg const &c ) {
		if( variant == "int" )
			w = new World<int>( c );
		else if( variant == "string" )
			w = new World<std::string>( c );
		else if( variant == "tracked" )
			w = new World<vt::Tracked<true>>( c );
		else
			vt::bad_variant( variant );
	}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
