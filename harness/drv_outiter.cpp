// Output iterators (spec/OutIter.tla)
#include "trace.h"

#include <algorithm>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_output_stream_iterator.h>
#include <daw/iterator/daw_sorted_insert_iterator.h>

using vt::Cfg;
using vt::Int;
using vt::Op;
using vt::Res;

struct Less {
	template<typename A, typename B>
	bool operator( )( A const &a, B const &b ) const {
		return a / 10 < b / 10;
	}
};
struct Greater {
	template<typename A, typename B>
	bool operator( )( A const &a, B const &b ) const {
		return a / 10 > b / 10;
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

// writes through two iterators for the same target
template<typename C, typename Make>
struct Out final : Base {
	C c{ };
	Make make;
	explicit Out( Make m )
	  : make( m ) {}

	template<typename It>
	static void put( It &it, Op const &o ) {
		if( o.is( "put" ) ) {
			int const v = static_cast<int>( o.i( 1 ) );
			*it++ = v;
		} else if( o.is( "assign" ) ) {
			*it = static_cast<int>( o.i( 1 ) );
			++it;
		} else if( o.is( "copy" ) ) {
			auto const src = o.l( 1 );
			std::vector<int> const v( src.begin( ), src.end( ) );
			std::copy( v.begin( ), v.end( ), it );
		} else
			vt::bad_op( o );
	}

	void op( Op const &o, Res &r ) override {
		auto a = make( c );
		auto b = a;
		if( o.is( "clear" ) ) {
			if constexpr( requires { c.clear( ); c.begin( ); } )
				c.clear( );
			else
				c.str( "" );
		} else
			put( o.i( 0 ) == 1 ? a : b, o );
		if constexpr( requires { c.str( ); } ) {
			auto const s = c.str( );
			for( std::size_t i = 0; i + 1 < s.size( ); i += 2 )
				r.push_back( ( s[i] - '0' ) * 10 + ( s[i + 1] - '0' ) );
			if( s.size( ) % 2 != 0 )
				r.push_back( -99 );
		} else
			for( int x : c )
				r.push_back( x );
	}
};

struct World {
	static inline std::string variant;
	std::unique_ptr<Base> p;

	template<typename C, typename M>
	void make( M m ) {
		p = std::make_unique<Out<C, M>>( m );
	}

	explicit World( Cfg const &cfg ) {
		auto const k = cfg.s( "k" );
		if( k == "back" )
			make<std::vector<int>>( []( auto &c ) { return daw::back_inserter<std::vector<int>>( c ); } );
		else if( k == "endv" )
			make<std::vector<int>>( []( auto &c ) { return daw::end_inserter( c ); } );
		else if( k == "endl" )
			make<std::list<int>>( []( auto &c ) { return daw::end_inserter( c ); } );
		else if( k == "set" )
			make<std::set<int>>( []( auto &c ) { return daw::inserter( c ); } );
		else if( k == "mset" )
			make<std::multiset<int>>( []( auto &c ) { return daw::inserter( c ); } );
		else if( k == "fn" )
			make<std::vector<int>>( []( auto &c ) { return daw::make_function_iterator( [q = &c]( int x ) { q->push_back( x ); } ); } );
		else if( k == "os" )
			make<std::ostringstream>( []( auto &c ) { return daw::make_output_stream_iterator( c ); } );
		else if( k == "sv" )
			make<std::vector<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Less{ } ); } );
		else if( k == "sd" )
			make<std::deque<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Less{ } ); } );
		else if( k == "sl" )
			make<std::list<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Less{ } ); } );
		else if( k == "svg" )
			make<std::vector<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Greater{ } ); } );
		else if( k == "sdg" )
			make<std::deque<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Greater{ } ); } );
		else
			make<std::list<int>>( []( auto &c ) { return daw::make_sorted_insert_iterator( c, Greater{ } ); } );
	}
	void op( Op const &o, Res &r ) {
		p->op( o, r );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
