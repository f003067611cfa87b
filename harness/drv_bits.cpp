// daw::static_bitset and create_bitset_from_set_positions (spec/Bits.tla)
#include "trace.h"
#include "refuse.h"

#include <bitset>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <daw/daw_bitset_helper.h>
#include <daw/daw_static_bitset.h>

using vt::Int;
using vt::Op;
using vt::Res;

template<std::size_t W>
void dump( daw::static_bitset<W> const &b, Res &r ) {
	for( std::size_t i = 0; i < W; ++i )
		if( b.get_bit( i ) )
			r.push_back( static_cast<Int>( i ) );
}
template<std::size_t W>
constexpr Int width( daw::static_bitset<W> const & ) {
	return static_cast<Int>( W );
}

enum class Place : unsigned short {};

template<std::size_t W>
void one( daw::static_bitset<W> &x, Op const &o, Res &r ) {
	if( o.is( "set" ) )
		x.set_bit( o.u( 1 ) );
	else if( o.is( "clear" ) )
		x.clear_bit( o.u( 1 ) );
	else if( o.is( "get" ) )
		r.push_back( x.get_bit( o.u( 1 ) ) );
	else if( o.is( "none" ) )
		x.clear( );
	else if( o.is( "ints" ) ) {
		constexpr std::size_t words = ( W + 63 ) / 64;
		std::array<std::uintmax_t, words> w{ };
		for( Int p : o.l( 1 ) )
			w[static_cast<std::size_t>( p ) / 64] |= std::uintmax_t{ 1 } << ( p % 64 );
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) { x = daw::static_bitset<W>( w[Is]... ); }( std::make_index_sequence<words>{ } );
	} else if( o.is( "str" ) ) {
		std::string s;
		for( Int d : o.l( 1 ) )
			s.push_back( static_cast<char>( '0' + d ) );
		r.push_back( vt::refused( [&] { x = daw::static_bitset<W>( daw::string_view( s.data( ), s.size( ) ) ); } ) );
	} else if( o.is( "shl" ) )
		x <<= o.u( 1 );
	else if( o.is( "shr" ) )
		x >>= o.u( 1 );
	else if( o.is( "not" ) )
		x = ~x;
	else if( o.is( "count" ) ) {
		r.push_back( static_cast<Int>( x.one_count( ) ) );
		r.push_back( static_cast<Int>( x.zero_count( ) ) );
	} else if( o.is( "bin" ) ) {
		std::ostringstream ss;
		ss << x;
		std::string const s = to_string( x );
		for( char c : s )
			r.push_back( c - '0' );
		if( ss.str( ) != s or x.to_string( daw::fmt_binary ) != s )
			r.push_back( -99 );
	} else if( o.is( "hex" ) ) {
		for( char c : x.to_string( daw::fmt_hex ) )
			r.push_back( c <= '9' ? c - '0' : c - 'A' + 10 );
	} else if( o.is( "from" ) ) {
		auto const ps = o.l( 1 );
		std::vector<int> const v( ps.begin( ), ps.end( ) );
		auto const b = daw::create_bitset_from_set_positions<W>( v );
		for( std::size_t i = 0; i < W; ++i )
			if( b[i] )
				r.push_back( static_cast<Int>( i ) );
		std::vector<Place> places;
		for( Int p : ps )
			places.push_back( static_cast<Place>( p ) );
		if( daw::create_bitset_from_set_positions<W>( places ) != b )
			r.push_back( -99 );
		if( v.size( ) == 1 and daw::create_bitset_from_set_positions<W>( { static_cast<unsigned>( v[0] ), static_cast<unsigned>( v[0] ) } ) != b )
			r.push_back( -98 );
		if( v.size( ) == 1 and daw::create_bitset_from_set_positions<W>( v[0], static_cast<unsigned char>( v[0] ), static_cast<Place>( v[0] ) ) != b )
			r.push_back( -97 );
	} else
		vt::bad_op( o );
}

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

template<std::size_t W, std::size_t V>
struct Pair final : Base {
	daw::static_bitset<W> a{ };
	daw::static_bitset<V> b{ };

	void init( std::function<bool( std::size_t, std::size_t )> fa, std::function<bool( std::size_t, std::size_t )> fb ) {
		for( std::size_t i = 0; i < W; ++i )
			if( fa( i, W ) )
				a.set_bit( i );
		for( std::size_t i = 0; i < V; ++i )
			if( fb( i, V ) )
				b.set_bit( i );
	}

	static void both( auto const &x, auto const &y, Res &r ) {
		r.push_back( width( x ) );
		dump( x, r );
		r.push_back( -1 );
		r.push_back( width( y ) );
		dump( y, r );
	}

	void op( Op const &o, Res &r ) override {
		auto const &ca = a;
		auto const &cb = b;
		if( o.is( "or" ) )
			both( ca | cb, cb | ca, r );
		else if( o.is( "and" ) )
			both( ca & cb, cb & ca, r );
		else if( o.is( "xor" ) )
			both( ca ^ cb, cb ^ ca, r );
		else if( o.is( "ior" ) ) {
			if( o.i( 0 ) == 0 ) {
				if( &( a |= b ) != &a )
					r.push_back( -99 );
			} else if( &( b |= a ) != &b )
				r.push_back( -99 );
		} else if( o.is( "iand" ) ) {
			if( o.i( 0 ) == 0 ) {
				if( &( a &= b ) != &a )
					r.push_back( -99 );
			} else if( &( b &= a ) != &b )
				r.push_back( -99 );
		} else if( o.is( "eq" ) ) {
			r.push_back( ca == cb );
			r.push_back( ca != cb );
			r.push_back( cb == ca );
			r.push_back( cb != ca );
		} else if( o.is( "copy" ) ) {
			auto c = a;
			dump( c, r );
			c.clear( );
			c = a;
			if( c != a )
				r.push_back( -99 );
		} else if( o.is( "widen" ) ) {
			if constexpr( W < V )
				b = daw::static_bitset<V>( a );
			else if constexpr( V < W )
				a = daw::static_bitset<W>( b );
		} else if( o.i( 0 ) == 0 )
			one( a, o, r );
		else
			one( b, o, r );
		r.push_back( -1 );
		dump( ca, r );
		r.push_back( -1 );
		dump( cb, r );
	}
};

bool pattern( Int k, std::size_t i, std::size_t w ) {
	switch( k ) {
	case 0: return false;
	case 1: return true;
	case 2: return i == 0 or i == w - 1;
	case 3: return i % 2 == 1;
	case 4:
		for( std::size_t p : { 0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 149 } )
			if( p == i )
				return true;
		return false;
	default: return ( i * i ) % 7 < 3;
	}
}

struct World {
	static inline std::string variant;
	std::unique_ptr<Base> p;

	template<std::size_t W, std::size_t V>
	void make( vt::Cfg const &c ) {
		if( c.i( "w" ) == static_cast<Int>( W ) and c.i( "v" ) == static_cast<Int>( V ) ) {
			auto q = std::make_unique<Pair<W, V>>( );
			q->init( [&]( std::size_t i, std::size_t w ) { return pattern( c.i( "p" ), i, w ); }, [&]( std::size_t i, std::size_t w ) { return pattern( c.i( "q" ), i, w ); } );
			p = std::move( q );
		}
	}
	template<std::size_t W>
	void with( vt::Cfg const &c ) {
		make<W, 1>( c );
		make<W, 33>( c );
		make<W, 64>( c );
		make<W, 65>( c );
		make<W, 128>( c );
		make<W, 150>( c );
	}
	explicit World( vt::Cfg const &c ) {
		with<1>( c );
		with<33>( c );
		with<64>( c );
		with<65>( c );
		with<128>( c );
		with<150>( c );
	}
	void op( Op const &o, Res &r ) {
		p->op( o, r );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
