// keep_n (spec/KeepN.tla).
#include "trace.h"

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <utility>

#include <daw/daw_keep_n.h>

using vt::Int;
using vt::Op;
using vt::Res;
using C = vt::Tracked<true>;
struct Val {
	C x;
	Val( Int v = 0 )
	  : x( v ) {}
	friend bool operator<( Val const &a, Val const &b ) { return a.x.v < b.x.v; }
	friend bool operator>( Val const &a, Val const &b ) { return a.x.v > b.x.v; }
};
struct Tens {
	constexpr bool operator( )( Val const &a, Val const &b ) const { return a.x.v / 10 < b.x.v / 10; }
};
struct Keep {
	virtual ~Keep( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename K, std::size_t N>
struct KeepOf final : Keep {
	K k;
	explicit KeepOf( Int d )
	  : k( Val( d ) ) {}
	static void all( K const &x, Res &r ) {
		Res a, b;
		for( auto const &v : x )
			a.push_back( v.x.v );
		for( auto it = x.cbegin( ); it != x.cend( ); ++it )
			b.push_back( it->x.v );
		bool ok = a == b and x.size( ) == N and x.capacity( ) == N and a.size( ) == N and x.front( ).x.v == a.front( ) and x.back( ).x.v == a.back( );
		for( std::size_t i = 0; i < N and i < a.size( ); ++i )
			ok = ok and &x[i] == &*( x.begin( ) + static_cast<std::ptrdiff_t>( i ) );
		if( not ok )
			r.push_back( -99 );
		r.insert( r.end( ), a.begin( ), a.end( ) );
	}
	void op( Op const &o, Res &r ) override {
		if( o.is( "ins" ) ) {
			Val const v( o.i( 0 ) );
			k.insert( v );
			if( v.x.v != o.i( 0 ) )
				r.push_back( -98 );
		} else if( o.is( "insm" ) )
			k.insert( Val( o.i( 0 ) ) );
		else if( o.is( "own" ) )
			k.insert( k[static_cast<std::size_t>( o.i( 0 ) )] );
		else if( o.is( "copy" ) ) {
			K c( k );
			c.insert( Val( 1 ) );
			c.insert( Val( 99 ) );
			c = k;
			K const d( std::move( c ) );
			return all( d, r );
		} else
			vt::bad_op( o );
		all( k, r );
	}
};
template<std::size_t N>
static std::unique_ptr<Keep> make( Int o, Int d ) {
	using daw::keep_n_order;
	switch( o ) {
	case 0: return std::make_unique<KeepOf<daw::keep_n<Val, N>, N>>( d );
	case 1: return std::make_unique<KeepOf<daw::keep_n<Val, N, keep_n_order::descending>, N>>( d );
	case 2: return std::make_unique<KeepOf<daw::keep_n<Val, N, keep_n_order::ascending, Tens>, N>>( d );
	case 3: return std::make_unique<KeepOf<daw::keep_n<Val, N, keep_n_order::descending, Tens>, N>>( d );
	default: return std::make_unique<KeepOf<daw::keep_n<Val, N, keep_n_order::ascending, std::greater<>>, N>>( d );
	}
}
struct World {
	inline static std::string variant;
	std::unique_ptr<Keep> k;
	explicit World( vt::Cfg const &c ) {
		switch( c.i( "n" ) ) {
		case 1: k = make<1>( c.i( "ord" ), c.i( "d" ) ); break;
		case 2: k = make<2>( c.i( "ord" ), c.i( "d" ) ); break;
		case 3: k = make<3>( c.i( "ord" ), c.i( "d" ) ); break;
		case 4: k = make<4>( c.i( "ord" ), c.i( "d" ) ); break;
		default: k = make<6>( c.i( "ord" ), c.i( "d" ) ); break;
		}
	}
	void op( Op const &o, Res &r ) { k->op( o, r ); }
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
