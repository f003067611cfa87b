// Values assembled from parts (spec/Asm.tla). One library per program:
// LIB 0 piecewise_factory_t, 1 piecewise_factory_late_t, 2 poly_var, 3 tables.
#include "trace.h"

#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#if LIB < 2
#include <daw/daw_piecewise_factory.h>
#elif LIB == 2
#include <daw/daw_poly_var.h>
#else
#include <daw/daw_named_params.h>
#include <daw/daw_simple_array.h>
#include <daw/daw_string_concat.h>
#include <daw/daw_zipcontainer.h>
#endif

using vt::Int;
using vt::Op;
using vt::Res;

#if LIB < 2
using C = vt::Tracked<true>;
struct Obj {
	C c;
	Obj( ) = default;
	Obj( int v )
	  : c( v ) {}
};
struct Made {
	int a;
	Obj b;
	long c;
	Made( int x, Obj y, long z )
	  : a( x )
	  , b( std::move( y ) )
	  , c( z ) {}
};
#if LIB == 0
using F = daw::piecewise_factory_t<Made, int, Obj, long>;
#else
using F = daw::piecewise_factory_late_t<Made, int, Obj, long>;
#endif
struct World {
	inline static std::string variant;
	F f;
	Int calls = 0;
	bool have[3] = { };
	explicit World( vt::Cfg const & ) {}
	void row( Made const &m, Res &r ) {
		r.insert( r.end( ), { m.a, m.b.c.v, m.c, calls } );
	}
	void op( Op const &o, Res &r ) {
		calls = 0;
		if( o.is( "setn" ) or o.is( "setl" ) ) {
			int const v = static_cast<int>( o.i( 1 ) );
			bool const l = o.is( "setl" );
			switch( o.i( 0 ) ) {
			case 0:
				if( l )
					f.set<0>( v );
				else
					f.set<0>( int( v ) );
				break;
			case 1: {
				Obj const x( v );
				if( l )
					f.set<1>( x );
				else
					f.set<1>( Obj( v ) );
			} break;
			default: {
				long const x = v;
				if( l )
					f.set<2>( x );
				else
					f.set<2>( long( v ) );
			}
			}
			have[o.i( 0 )] = true;
			r.push_back( 0 );
		} else if( o.is( "seti" ) ) {
			int const v = static_cast<int>( o.i( 1 ) );
			switch( o.i( 0 ) ) {
			case 0: f.set( 0, v ); break;
			case 1: f.set( 1, Obj( v ) ); break;
			default: f.set( 2, static_cast<long>( v ) ); break;
			}
			have[o.i( 0 )] = true;
			r.push_back( 0 );
		}
#if LIB == 1
		else if( o.is( "fn" ) ) {
			int const v = static_cast<int>( o.i( 1 ) );
			auto const fn = [this, v] {
				++calls;
				return v + 100;
			};
			switch( o.i( 0 ) ) {
			case 0: f.set<0>( fn ); break;
			case 1: f.set<1>( [fn] { return Obj( fn( ) ); } ); break;
			default: f.set<2>( fn ); break;
			}
			have[o.i( 0 )] = true;
			r.push_back( 0 );
		}
#endif
		else if( o.is( "bad" ) ) {
			try {
				f.set( static_cast<std::size_t>( o.i( 0 ) ), 1 );
				r.push_back( 0 );
			} catch( std::out_of_range const & ) {
				r.push_back( 1 );
			}
		} else if( o.is( "call" ) ) {
			F const &c = f;
			Made const m = f( );
			row( m, r );
			calls = 0;
			Made const n = c( );
			Res q;
			row( n, q );
			if( q != r )
				r.push_back( -99 );
		} else if( o.is( "mcall" ) )
			row( std::move( f )( ), r );
		else if( o.is( "copy" ) ) {
			F c( f );
			F d( c );
			c = std::move( d );
			if( have[0] and have[1] and have[2] )
				row( c( ), r );
		} else
			vt::bad_op( o );
	}
};
#elif LIB == 2
struct Other {
	virtual ~Other( ) = default;
	Int pad = 77;
};
struct Base {
	Int v;
	explicit Base( Int x )
	  : v( x ) {}
	Base( Base const & ) = default;
	Base &operator=( Base const & ) = default;
	virtual ~Base( ) = default;
	virtual Int kind( ) const = 0;
	virtual Int vkind( ) {
		return kind( );
	}
};
struct One final : Base {
	using Base::Base;
	Int kind( ) const override { return 1; }
};
struct Two final : Other, Base {
	using Base::Base;
	Int kind( ) const override { return 2; }
};
using W = daw::poly_var<Base, One, Two>;
struct World {
	inline static std::string variant;
	W w;
	explicit World( vt::Cfg const &c )
	  : w( One( 0 ) ) {
		if( c.i( "k" ) == 1 )
			w = One( 5 );
		else
			w = W( Two( 5 ) );
	}
	void op( Op const &o, Res &r ) {
		W const &c = w;
		if( o.is( "put" ) ) {
			if( o.i( 0 ) == 1 ) {
				One const x( o.i( 1 ) );
				if( o.i( 2 ) == 0 )
					w = x;
				else
					w = W( x );
			} else {
				Two x( o.i( 1 ) );
				if( o.i( 2 ) == 0 )
					w = std::move( x );
				else
					w = W( x );
			}
		} else if( o.is( "read" ) )
			r.insert( r.end( ), { w->v, c->v, ( *w ).v, ( *c ).v, w->vkind( ), c->kind( ), ( *w ).vkind( ), ( *c ).kind( ) } );
		else if( o.is( "wr" ) )
			w->v = 8;
		else if( o.is( "wro" ) )
			( *w ).v = 9;
		else if( o.is( "copy" ) ) {
			W x( c );
			W y( One( 1 ) );
			y = x;
			x->v = 55;
			r.insert( r.end( ), { y->kind( ), y->v } );
		} else if( o.is( "same" ) )
			r.insert( r.end( ), { &*w == w.operator->( ), &*c == c.operator->( ) } );
		else
			vt::bad_op( o );
	}
};
#else
inline constexpr auto alpha = DAW_MAKE_NAMED_OPTION( Int, alpha, 1 );
inline constexpr auto beta = DAW_MAKE_NAMED_OPTION( Int, beta, 2 );
inline auto gamma3 = DAW_MAKE_NAMED_UNIQUE_OPTION( std::unique_ptr<Int>, gamma3, std::make_unique<Int>( 3 ) );
template<typename... Args>
static void opts( Res &r, Args &&...args ) {
	r.push_back( daw::nparam::get_opt( alpha, args... ) );
	r.push_back( daw::nparam::get_opt( beta, args... ) );
	using G = decltype( gamma3 );
	r.push_back( *daw::nparam::get_opt( G{ std::make_unique<Int>( 3 ) }, DAW_FWD( args )... ) );
}
template<std::size_t N>
static void arr( Res &r ) {
	daw::simple_array<Int, N> a{ };
	daw::simple_array<Int, N> const &c = a;
	bool ok = a.size( ) == N and a.end( ) - a.begin( ) == static_cast<std::ptrdiff_t>( N ) and c.end( ) - c.begin( ) == static_cast<std::ptrdiff_t>( N ) and a.data( ) == a.begin( ) and c.data( ) == c.begin( ) and a.date_end( ) == a.end( ) and c.date_end( ) == c.end( );
	if constexpr( N > 0 )
		for( std::size_t i = 0; i < N; ++i )
			a[i] = static_cast<Int>( i ) + 1;
	if( not ok )
		r.push_back( -99 );
	for( auto const &x : c )
		r.push_back( x );
	for( auto &x : a )
		x += 20;
	r.push_back( -1 );
	if constexpr( N > 0 )
		for( std::size_t i = 0; i < N; ++i )
			r.push_back( c[i] );
}
template<typename Z>
static void zip( Z &&z, Res &r ) {
	for( auto item : z ) {
		r.push_back( std::get<0>( item ) );
		r.push_back( std::get<1>( item ) );
	}
}
struct World {
	inline static std::string variant;
	explicit World( vt::Cfg const & ) {}
	void op( Op const &o, Res &r ) {
		if( o.is( "opt" ) ) {
			auto g = [] { return gamma3 = std::make_unique<Int>( 33 ); };
			std::string k;
			for( Int x : o.l( 0 ) )
				k += static_cast<char>( '0' + x );
			if( k == "" ) opts( r );
			else if( k == "1" ) opts( r, alpha = 11 );
			else if( k == "2" ) opts( r, beta = 22 );
			else if( k == "3" ) opts( r, g( ) );
			else if( k == "12" ) opts( r, alpha = 11, beta = 22 );
			else if( k == "21" ) opts( r, beta = 22, alpha = 11 );
			else if( k == "31" ) opts( r, g( ), alpha = 11 );
			else if( k == "13" ) opts( r, alpha = 11, g( ) );
			else if( k == "23" ) opts( r, beta = 22, g( ) );
			else if( k == "123" ) opts( r, alpha = 11, beta = 22, g( ) );
			else if( k == "321" ) opts( r, g( ), beta = 22, alpha = 11 );
			else if( k == "231" ) opts( r, beta = 22, g( ), alpha = 11 );
			else vt::bad_op( o );
		} else if( o.is( "cat" ) ) {
			std::string s[3];
			for( std::size_t i = 0; i < 3; ++i )
				for( Int x : o.l( i ) )
					s[i] += static_cast<char>( x );
			std::string const before = s[0] + s[1] + s[2];
			std::string out;
			switch( o.i( 3 ) ) {
			case 0: out = daw::string_concat( s[0], s[1], s[2] ); break;
			case 1: out = daw::string_concat( daw::string_concat( s[0], std::string( s[1] ) ), std::string_view( s[2] ) ); break;
			default: out = daw::string_concat( std::string( s[0] ), s[1] + s[2] ); break;
			}
			if( s[0] + s[1] + s[2] != before )
				r.push_back( -99 );
			for( char x : out )
				r.push_back( x );
		} else if( o.is( "zip" ) ) {
			std::vector<Int> a;
			std::list<Int> b;
			for( Int i = 1; i <= o.i( 0 ); ++i ) {
				a.push_back( i );
				b.push_back( 10 * i );
			}
			switch( o.i( 1 ) ) {
			case 0: return zip( daw::zip_container( a, b ), r );
			case 1: {
				auto const z = daw::make_zipcontainer( a, b );
				return zip( z, r );
			}
			default: {
				auto z = daw::make_zipcontainer( std::as_const( a ), b );
				auto it = z.begin( );
				Int n = 0;
				while( it != z.end( ) ) {
					auto x = *it++;
					r.push_back( std::get<0>( x ) );
					r.push_back( std::get<1>( x ) );
					++n;
				}
			}
			}
		} else if( o.is( "arr" ) )
			switch( o.i( 0 ) ) {
			case 0: return arr<0>( r );
			case 1: return arr<1>( r );
			case 2: return arr<2>( r );
			case 3: return arr<3>( r );
			default: return arr<4>( r );
			}
		else
			vt::bad_op( o );
	}
};
#endif
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
