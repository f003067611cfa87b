// daw::iter_view (spec/IterView.tla)
#include "trace.h"

#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <vector>

#include <daw/daw_iter_view.h>

using vt::Cfg;
using vt::Int;
using vt::Op;
using vt::Res;

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

struct Array {
	using iterator = int const *;
	std::vector<int> v;
	Array( std::vector<Int>::iterator f, std::vector<Int>::iterator l )
	  : v( f, l ) {}
	iterator begin( ) const {
		return v.data( );
	}
	iterator end( ) const {
		return v.data( ) + v.size( );
	}
};

template<typename C, bool Bidi>
struct View final : Base {
	C c;
	using It = decltype( std::begin( c ) );
	using V = daw::iter_view<It>;
	V v;

	explicit View( std::vector<Int> src )
	  : c( src.begin( ), src.end( ) )
	  , v( std::begin( c ), std::end( c ) ) {}

	Int pos( It it ) {
		return static_cast<Int>( std::distance( std::begin( c ), it ) );
	}

	void op( Op const &o, Res &r ) override {
		auto const &cv = v;
		if( o.is( "make" ) ) {
			if( o.i( 0 ) == 0 )
				v = V( std::begin( c ), std::end( c ) );
			else if( o.i( 0 ) == 1 )
				v = V( std::begin( c ), static_cast<std::size_t>( std::distance( std::begin( c ), std::end( c ) ) ) );
			else if constexpr( std::is_same_v<C, Array> )
				v = V( c.begin( ), c.end( ) );
			else
				v = V( c );
		} else if( o.is( "sub" ) )
			v = o.i( 1 ) == -1 ? cv.subspan( o.u( 0 ) ) : cv.subspan( o.u( 0 ), o.u( 1 ) );
		else if( o.is( "cut" ) )
			v.remove_prefix( o.u( 0 ) );
		else if( o.is( "cutraw" ) )
			v.remove_prefix( o.u( 0 ), daw::dont_clip_to_bounds );
		else if( o.is( "cut1" ) )
			v.remove_prefix( );
		else if( o.is( "pop" ) )
			r.push_back( v.pop_front( ) );
		else if( o.is( "at" ) ) {
			r.push_back( v[o.u( 0 )] );
			if( cv[o.u( 0 )] != v[o.u( 0 )] or v.front( ) != v[0] or cv.front( ) != v[0] )
				r.push_back( -99 );
		} else if( o.is( "find" ) ) {
			r.push_back( pos( v.find( static_cast<int>( o.i( 0 ) ) ) ) - pos( v.begin( ) ) );
			if( v.find( static_cast<int>( o.i( 0 ) ) ) != cv.find( static_cast<int>( o.i( 0 ) ) ) )
				r.push_back( -99 );
		} else if( o.is( "not" ) ) {
			r.push_back( pos( v.find_first_not_of( static_cast<int>( o.i( 0 ) ) ) ) - pos( v.begin( ) ) );
			if( v.find_first_not_of( static_cast<int>( o.i( 0 ) ) ) != cv.find_first_not_of( static_cast<int>( o.i( 0 ) ) ) )
				r.push_back( -99 );
		} else if( o.is( "until" ) ) {
			int const x = static_cast<int>( o.i( 0 ) );
			auto &ref = o.i( 1 ) == 0 ? v.remove_prefix_until( x ) : v.remove_prefix_until( x, daw::discard );
			if( &ref != &v )
				r.push_back( -99 );
		} else if( o.is( "while" ) ) {
			int const x = static_cast<int>( o.i( 0 ) );
			auto &ref = o.i( 1 ) == 0 ? v.remove_prefix_while( x ) : v.remove_prefix_while( x, daw::discard );
			if( &ref != &v )
				r.push_back( -99 );
		} else if( o.is( "popuntil" ) or o.is( "popwhile" ) ) {
			int const x = static_cast<int>( o.i( 0 ) );
			auto const start = v.begin( );
			bool const until = o.is( "popuntil" );
			V const got = o.i( 1 ) == 0 ? ( until ? v.pop_front_until( x ) : v.pop_front_while( x ) )
			                            : ( until ? v.pop_front_until( x, daw::discard ) : v.pop_front_while( x, daw::discard ) );
			r.push_back( static_cast<Int>( got.size( ) ) );
			for( int e : got )
				r.push_back( e );
			if( got.begin( ) != start )
				r.push_back( -99 );
		} else if( o.is( "cmp" ) ) {
			auto const f = std::next( std::begin( c ), o.i( 0 ) );
			V const x( f, static_cast<std::size_t>( o.i( 1 ) > o.i( 0 ) ? o.i( 1 ) - o.i( 0 ) : 0 ) );
			r.push_back( cv == x );
			r.push_back( cv != x );
			r.push_back( cv < x );
			r.push_back( cv > x );
			r.push_back( cv <= x );
			r.push_back( cv >= x );
		} else if constexpr( Bidi ) {
			if( o.is( "add" ) ) {
				if( o.i( 0 ) == 1 )
					v.add_prefix( );
				else
					v.add_prefix( o.u( 0 ) );
			} else
				vt::bad_op( o );
		} else
			vt::bad_op( o );
		r.push_back( pos( v.begin( ) ) );
		r.push_back( static_cast<Int>( v.size( ) ) );
		r.push_back( cv.empty( ) );
		std::size_t guard = 0;
		for( auto it = v.begin( ); it != v.end( ) and guard < 20; ++it, ++guard )
			r.push_back( *it );
		if constexpr( Bidi ) {
			for( auto it = v.rbegin( ); it != v.rend( ) and guard < 40; ++it, ++guard )
				r.push_back( *it );
			if( cv.crbegin( ) != v.rbegin( ) or cv.rend( ) != cv.crend( ) )
				r.push_back( -99 );
		}
		if( cv.cbegin( ) != v.begin( ) or cv.cend( ) != v.end( ) )
			r.push_back( -99 );
	}
};

struct World {
	static inline std::string variant;
	std::unique_ptr<Base> p;

	explicit World( Cfg const &c ) {
		auto const k = c.s( "k" );
		auto const src = c.l( "src" );
		if( k == "vec" )
			p = std::make_unique<View<std::vector<int>, true>>( src );
		else if( k == "list" )
			p = std::make_unique<View<std::list<int>, true>>( src );
		else if( k == "fwd" )
			p = std::make_unique<View<std::forward_list<int>, false>>( src );
		else
			p = std::make_unique<View<Array, true>>( src );
	}
	void op( Op const &o, Res &r ) {
		p->op( o, r );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
