// Conformance driver for bounded_vector_t and bounded_array_t (spec/BoundedVec.tla)
#include "trace.h"

#include <cstddef>
#include <memory>
#include <vector>

#include <daw/daw_bounded_array.h>
#include <daw/daw_bounded_vector.h>

using vt::Int;
using vt::Op;
using vt::Res;

struct Multi {
	int x, y, z;
	constexpr Multi( int a = 0, int b = 0, int c = 0 )
	  : x( a )
	  , y( b )
	  , z( c ) {}
	bool operator==( Multi const &o ) const = default;
};
static int un( int v ) {
	return v;
}
static int un( Multi const &v ) {
	return v.x + v.y + v.z;
}
struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename T, std::size_t N>
struct VecW : Base {
	using M = daw::bounded_vector_t<T, N>;
	// on the heap of their own, so that the sanitizer sees every access outside them
	std::unique_ptr<M> a = std::make_unique<M>( ), b = std::make_unique<M>( );
	static std::vector<T> vals( std::vector<Int> const &l ) {
		std::vector<T> r;
		for( Int x : l )
			r.push_back( T( static_cast<int>( x ) ) );
		return r;
	}
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		M &v = *a;
		M const &c = v;
		auto const val = [&]( std::size_t i ) {
			return T( static_cast<int>( o.i( i ) ) );
		};
		auto const pos = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		if( o.is( "push" ) ) {
			T const x = val( 0 );
			v.push_back( x );
		} else if( o.is( "pushm" ) )
			v.push_back( val( 0 ) );
		else if( o.is( "emplace" ) )
			v.emplace_back( static_cast<int>( o.i( 0 ) ) );
		else if( o.is( "emplace3" ) ) {
			int const x = static_cast<int>( o.i( 0 ) );
			if constexpr( std::is_same_v<T, Multi> )
				v.emplace_back( x - 2, 1, 1 );
			else {
				v.emplace_back( );
				v.back( ) = x;
			}
		} else if( o.is( "pushself" ) )
			v.push_back( std::as_const( v[pos( 0 )] ) );
		else if( o.is( "pushselfm" ) )
			v.push_back( std::move( v[pos( 0 )] ) );
		else if( o.is( "emplself" ) )
			v.emplace_back( v[pos( 0 )] );
		else if( o.is( "pushslot" ) ) {
			auto const p = v.push_back( );
			v[p] = val( 0 );
			put( p );
		} else if( o.is( "pushn" ) ) {
			auto const x = vals( o.l( 0 ) );
			v.push_back( x.data( ), x.size( ) );
		} else if( o.is( "pushc" ) ) {
			std::vector<short> x;
			for( Int e : o.l( 0 ) )
				x.push_back( static_cast<short>( e ) );
			v.push_back( x.data( ), x.size( ) );
		} else if( o.is( "assign" ) )
			v.assign( pos( 0 ), val( 1 ) );
		else if( o.is( "assignself" ) )
			v.assign( pos( 0 ), v[pos( 1 )] );
		else if( o.is( "popb" ) )
			put( un( v.pop_back( ) ) );
		else if( o.is( "popf" ) )
			put( un( v.pop_front( ) ) );
		else if( o.is( "popfn" ) or o.is( "popfbad" ) or o.is( "resize" ) or o.is( "resizebad" ) ) {
			try {
				if( o.is( "popfn" ) or o.is( "popfbad" ) )
					v.pop_front( pos( 0 ) );
				else
					v.resize( pos( 0 ) );
				put( 0 );
			} catch( std::out_of_range const & ) {
				put( -1 );
			}
		} else if( o.is( "erase" ) )
			put( v.erase( v.cbegin( ) + o.i( 0 ) ) - v.begin( ) );
		else if( o.is( "eraser" ) )
			put( v.erase( v.cbegin( ) + o.i( 0 ), v.cbegin( ) + o.i( 1 ) ) - v.begin( ) );
		else if( o.is( "zero" ) )
			v.zero( );
		else if( o.is( "clear" ) )
			v.clear( );
		else if( o.is( "set" ) ) {
			auto const x = val( 1 );
			std::string const w = o.s( 2 );
			if( w == "idx" )
				v[pos( 0 )] = x;
			else if( w == "at" )
				v.at( pos( 0 ) ) = x;
			else if( w == "data" )
				v.data( )[pos( 0 )] = x;
			else if( w == "it" )
				v.begin( )[o.i( 0 )] = x;
			else if( w == "rit" )
				*( v.rend( ) - 1 - o.i( 0 ) ) = x;
			else if( w == "front" )
				v.front( ) = x;
			else
				v.back( ) = x;
		} else if( o.is( "get" ) ) {
			auto at = [&]( auto &q ) {
				try {
					put( un( q.at( pos( 0 ) ) ) );
				} catch( std::exception const & ) {
					put( -1 );
				}
			};
			at( v );
			at( c );
			if( pos( 0 ) < c.size( ) ) {
				put( un( c[pos( 0 )] ) );
				put( un( c.data( )[pos( 0 )] ) );
			}
		} else if( o.is( "list" ) ) {
			Res l[5];
			for( auto const &e : v )
				l[0].push_back( un( e ) );
			for( auto const &e : c )
				l[1].push_back( un( e ) );
			for( auto i = c.cbegin( ); i != c.cend( ); ++i )
				l[2].push_back( un( *i ) );
			for( auto i = v.rbegin( ); i != v.rend( ); ++i )
				l[3].push_back( un( *i ) );
			for( auto i = c.crbegin( ); i != c.crend( ); ++i )
				l[4].push_back( un( *i ) );
			for( auto x : l[0] )
				r.push_back( x );
			for( auto x : l[3] )
				r.push_back( x );
			if( c.rend( ) - c.rbegin( ) != static_cast<std::ptrdiff_t>( c.size( ) ) )
				put( -1000 );
			if( not( l[0] == l[1] ) or not( l[0] == l[2] ) or not( l[3] == l[4] ) )
				put( -1000 );
			if( not c.empty( ) ) {
				put( un( c.front( ) ) );
				put( un( c.back( ) ) );
				if( &v.front( ) != &c.front( ) or &v.back( ) != &c.back( ) )
					put( -1000 );
			}
		} else if( o.is( "meta" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			put( c.full( ) );
			put( M::capacity( ) );
			put( c.available( ) );
			for( std::size_t i = 0; i < N + 2; ++i )
				put( v.has_room( i ) );
		} else if( o.is( "swap" ) )
			v.swap( *b );
		else if( o.is( "copy" ) )
			*b = c;
		else if( o.is( "ctorn" ) ) {
			auto const x = vals( o.l( 0 ) );
			a = std::make_unique<M>( x.data( ), x.size( ) );
		} else if( o.is( "ctorr" ) ) {
			auto const x = vals( o.l( 0 ) );
			a = std::make_unique<M>( x.begin( ), x.end( ) );
		} else
			vt::bad_op( o );
	}
};
template<typename T>
struct VecW<T, 0> : Base {
	daw::bounded_vector_t<T, 0> v{ };
	void op( Op const &o, Res &r ) override {
		if( not o.is( "zmeta" ) )
			vt::bad_op( o );
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		v.clear( );
		v.zero( );
		v.swap( v );
		v.resize( 0 );
		put( v.size( ) );
		put( v.empty( ) );
		put( v.full( ) );
		put( v.capacity( ) );
		put( v.available( ) );
		put( v.has_room( 1 ) );
		put( v.end( ) - v.begin( ) );
		put( v.cbegin( ) == v.cend( ) and v.rbegin( ) == v.rend( ) and v.crbegin( ) == v.crend( ) );
		try {
			v.resize( 1 );
			put( 0 );
		} catch( std::out_of_range const & ) {
			put( -1 );
		}
	}
};
template<typename T, std::size_t N>
struct ArrW : Base {
	using M = daw::bounded_array_t<T, N>;
	std::unique_ptr<M> a = std::make_unique<M>( );
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		M &v = *a;
		M const &c = v;
		if( o.is( "afill" ) )
			v.fill( T( static_cast<int>( o.i( 0 ) ) ) );
		else if( o.is( "afillself" ) )
			v.fill( c[static_cast<std::size_t>( o.i( 0 ) )] );
		else if( o.is( "aset" ) ) {
			T const x( static_cast<int>( o.i( 1 ) ) );
			std::string const w = o.s( 2 );
			auto const p = static_cast<std::size_t>( o.i( 0 ) );
			if( w == "idx" )
				v[p] = x;
			else if( w == "data" )
				v.data( )[p] = x;
			else if( w == "it" )
				v.begin( )[p] = x;
			else if( w == "front" )
				v.front( ) = x;
			else
				v.back( ) = x;
		} else if( o.is( "alist" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			for( auto const &e : v )
				put( un( e ) );
			for( auto i = c.cbegin( ); i != c.cend( ); ++i )
				put( un( *i ) );
			put( un( c.front( ) ) );
			put( un( c.back( ) ) );
		} else if( o.is( "aeq" ) ) {
			M x{ };
			for( std::size_t i = 0; i < N; ++i )
				x[i] = T( static_cast<int>( o.l( 0 )[i] ) );
			put( x == c );
			put( x != c );
			bool same = true;
			for( std::size_t i = 0; i < N; ++i )
				same = same and x.data( )[i] == c.data( )[i];
			put( same );
		} else if( o.is( "acopy" ) )
			a = std::make_unique<M>( c );
		else
			vt::bad_op( o );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	template<typename T>
	void make( vt::Cfg const &c ) {
		bool const arr = c.s( "t" ) == "arr";
		switch( c.i( "n" ) ) {
		case 0:
			b = std::make_unique<VecW<T, 0>>( );
			break;
#define CASE( N )                             \
	case N:                                     \
		if( arr )                                 \
			b = std::make_unique<ArrW<T, N>>( );    \
		else                                      \
			b = std::make_unique<VecW<T, N>>( );    \
		break;
			CASE( 1 )
			CASE( 2 )
			CASE( 3 )
			CASE( 4 )
			CASE( 5 )
			CASE( 8 )
			CASE( 12 )
		default:
			vt::bad_variant( "capacity" );
		}
	}
	explicit World( vt::Cfg const &c ) {
		if( variant == "multi" )
			make<Multi>( c );
		else
			make<int>( c );
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
