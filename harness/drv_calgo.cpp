// Conformance driver for daw::container (spec/Algo.tla, container algorithms)
#include "trace.h"

#include <daw/daw_container_algorithm.h>

#include <deque>
#include <list>
#include <string>

using vt::Int;
using vt::Op;
using vt::Res;
namespace K = daw::container;

static bool P( Int m, int x ) {
	return ( ( m >> x ) & 1 ) != 0;
}
static bool cmp( Int c, int x, int y ) {
	return c == 0 ? x < y : c == 1 ? x > y : x / 2 < y / 2;
}
static int U( int x ) {
	return 3 * x + 1;
}
static int bop( int x, int y ) {
	return ( 2 * x + y ) % 1009;
}
// an element that remembers its identity, for stability
struct Item {
	int v;
	int id;
	friend bool operator<( Item const &a, Item const &b ) {
		return a.v < b.v;
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename C>
struct World : Base {
	static constexpr bool RA = std::random_access_iterator<typename C::iterator>;
	void op( Op const &o, Res &r ) override {
		std::vector<int> va, vb;
		for( auto x : o.l( 0 ) )
			va.push_back( static_cast<int>( x ) );
		for( auto x : o.l( 1 ) )
			vb.push_back( static_cast<int>( x ) );
		Int const x = o.i( 2 ), y = o.i( 3 );
		int const xi = static_cast<int>( x );
		std::size_t const n = va.size( );
		C a( va.begin( ), va.end( ) );
		C const ca( va.begin( ), va.end( ) );
		C b( vb.begin( ), vb.end( ) );
		C out( n + 2, -5 );
		auto px = [x]( int v ) {
			return P( x, v );
		};
		auto cx = [x]( int p, int q ) {
			return cmp( x, p, q );
		};
		auto put = [&]( auto v ) {
			r.push_back( static_cast<Int>( v ) );
		};
		auto pos = [&]( auto it ) {
			put( std::distance( a.begin( ), it ) );
		};
		auto cpos = [&]( auto it ) {
			put( std::distance( ca.begin( ), it ) );
		};
		auto seq = [&]( auto const &c ) {
			for( auto const &v : c )
				put( v );
		};
		auto is = [&]( char const *s ) {
			return o.k == s;
		};
		bool mutates = false;
		auto stable = [&]( auto go ) { // run on items with identity, check order of equivalents
			std::vector<Item> items;
			for( std::size_t i = 0; i < n; ++i )
				items.push_back( { va[i], static_cast<int>( i ) } );
			go( items );
			for( auto const &i : items )
				put( i.v );
			return items;
		};
		if( is( "c_size" ) ) {
			put( K::container_size( ca ) );
			int arr[3]{ };
			put( K::container_size( arr ) );
		} else if( is( "c_sort" ) ) {
			mutates = true;
			if constexpr( RA ) {
				K::sort( a );
				seq( a );
			} else {
				K::sort( va );
				seq( va );
			}
		} else if( is( "c_sortc" ) ) {
			mutates = true;
			if constexpr( RA ) {
				K::sort( a, cx );
				seq( a );
			} else {
				K::sort( va, cx );
				seq( va );
			}
		} else if( is( "c_ssort" ) or is( "c_ssortc" ) ) {
			auto const c = is( "c_ssort" ) ? 0 : x;
			auto items = stable( [&]( auto &v ) {
				if( is( "c_ssort" ) )
					K::stable_sort( v );
				else
					K::stable_sort( v, [&]( Item const &p, Item const &q ) {
						return cmp( x, p.v, q.v );
					} );
			} );
			for( std::size_t i = 1; i < items.size( ); ++i )
				if( not cmp( c, items[i - 1].v, items[i].v ) and items[i - 1].id > items[i].id )
					put( -1000 );
		} else if( is( "c_find" ) ) {
			pos( K::find( a, xi ) );
			cpos( K::find( ca, xi ) );
		} else if( is( "c_find_if" ) )
			pos( K::find_if( a, px ) );
		else if( is( "c_rm" ) ) {
			mutates = true;
			auto it = K::erase_remove( a, xi );
			put( a.size( ) );
			seq( a );
			if( it != a.end( ) )
				put( -1000 );
		} else if( is( "c_rmif" ) ) {
			mutates = true;
			auto it = K::erase_remove_if( a, px );
			put( a.size( ) );
			seq( a );
			if( it != a.end( ) )
				put( -1000 );
		} else if( is( "c_part" ) ) {
			mutates = true;
			auto it = K::partition( a, px );
			pos( it );
			std::vector<int> yes( a.begin( ), it ), no( it, a.end( ) );
			std::sort( yes.begin( ), yes.end( ) );
			std::sort( no.begin( ), no.end( ) );
			seq( yes );
			seq( no );
		} else if( is( "c_spart" ) ) {
			mutates = true;
			pos( K::stable_partition( a, px ) );
			seq( a );
		} else if( is( "c_acc" ) )
			put( K::accumulate( ca, 5 ) );
		else if( is( "c_acc_op" ) )
			put( K::accumulate( ca, 3, bop ) );
		else if( is( "c_tr" ) ) {
			mutates = true;
			pos( K::transform( a, U ) );
			seq( a );
		} else if( is( "c_tro" ) ) {
			auto first = out.begin( );
			auto it = K::transform( ca, first, U );
			put( std::distance( out.begin( ), it ) );
			seq( out );
			C out2( n + 2, -5 );
			K::transform( ca, out2.begin( ), U );
			seq( out2 );
		} else if( is( "c_max" ) ) {
			put( std::distance( std::as_const( a ).begin( ), K::max_element( a ) ) );
			cpos( K::max_element( ca ) );
		} else if( is( "c_maxc" ) ) {
			pos( K::max_element( a, cx ) );
			cpos( K::max_element( ca, cx ) );
		} else if( is( "c_contv" ) )
			put( K::contains( ca, xi ) );
		else if( is( "c_contp" ) )
			put( K::contains( ca, px ) );
		else if( is( "c_copy" ) ) {
			K::copy( ca, out.begin( ) );
			seq( out );
		} else if( is( "c_copy_n" ) ) {
			K::copy_n( ca, static_cast<std::size_t>( x ), out.begin( ) );
			seq( out );
		} else if( is( "c_copy_if" ) ) {
			auto it = K::copy_if( ca, out.begin( ), px );
			put( std::distance( out.begin( ), it ) );
			seq( out );
		} else if( is( "c_pos" ) )
			K::for_each_with_pos( a, [&]( int v, std::size_t i ) {
				put( v );
				put( i );
			} );
		else if( is( "c_posr" ) )
			K::for_each_with_pos( a, static_cast<std::size_t>( x ), static_cast<std::size_t>( y ), [&]( int v, std::size_t i ) {
				put( v );
				put( i );
			} );
		else if( is( "c_subset" ) ) {
			auto f = [&]( auto const &c, std::size_t i ) {
				put( c.size( ) );
				put( i );
			};
			if constexpr( RA )
				K::for_each_subset( a, static_cast<std::size_t>( x ), static_cast<std::size_t>( y ), f );
			else
				K::for_each_subset( va, static_cast<std::size_t>( x ), static_cast<std::size_t>( y ), f );
		} else if( is( "c_append" ) ) {
			mutates = true;
			K::append( a, b );
			K::append( ca, b );
			seq( b );
			vb.insert( vb.end( ), va.begin( ), va.end( ) );
			vb.insert( vb.end( ), va.begin( ), va.end( ) );
		} else
			vt::bad_op( o );
		if( not mutates and not std::equal( a.begin( ), a.end( ), va.begin( ), va.end( ) ) )
			++vt::errs;
		if( o.k != "c_sort" and o.k != "c_sortc" and not std::equal( ca.begin( ), ca.end( ), va.begin( ), va.end( ) ) )
			++vt::errs;
		if( not std::equal( b.begin( ), b.end( ), vb.begin( ), vb.end( ) ) )
			++vt::errs;
	}
};
struct Any {
	Base *w = nullptr;
	static inline std::string variant;
	Any( vt::Cfg const & ) {
		if( variant == "vector" )
			w = new World<std::vector<int>>;
		else if( variant == "deque" )
			w = new World<std::deque<int>>;
		else if( variant == "list" )
			w = new World<std::list<int>>;
		else
			vt::bad_variant( variant );
	}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
