// Conformance driver for span, view, contiguous_view, span_writer and write_to_span (spec/Span.tla)
#include "trace.h"
#include "refuse.h"

#include <algorithm>
#include <array>
#include <cstddef>
#include <iterator>
#include <list>
#include <memory>
#include <span>
#include <vector>

#include <daw/daw_contiguous_view.h>
#include <daw/daw_span.h>
#include <daw/daw_span_writer.h>
#include <daw/daw_view.h>

using vt::Int;
using vt::Op;
using vt::Res;

#if defined( ELEM_LONG )
using T = long;
#elif defined( ELEM_UCHAR )
using T = unsigned char;
#else
using T = int;
#endif

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
	virtual std::size_t size( ) = 0;
	virtual std::ptrdiff_t off( ) = 0;
	virtual Res buf( ) = 0;
};

template<typename B, typename E>
static Res walk( B b, E e, std::size_t limit ) {
	Res r;
	for( ; b != e and r.size( ) < limit + 3; ++b )
		r.push_back( static_cast<Int>( *b ) );
	return r;
}

struct Buf {
	std::size_t n;
	std::unique_ptr<T[]> p;
	explicit Buf( std::vector<Int> const &v )
	  : n( v.size( ) )
	  , p( new T[v.size( )] ) {
		for( std::size_t i = 0; i < n; ++i )
			p[i] = static_cast<T>( v[i] );
	}
	Res all( ) const {
		Res r;
		for( std::size_t i = 0; i < n; ++i )
			r.push_back( static_cast<Int>( p[i] ) );
		return r;
	}
};
// a container on the buffer
template<typename E>
struct Cont {
	using value_type = std::remove_const_t<E>;
	using iterator = E *;
	E *p;
	std::size_t n;
	E *begin( ) {
		return p;
	}
	E *end( ) {
		return p + n;
	}
	E const *begin( ) const {
		return p;
	}
	E const *end( ) const {
		return p + n;
	}
	E *data( ) {
		return p;
	}
	E const *data( ) const {
		return p;
	}
	std::size_t size( ) const {
		return n;
	}
};

// what every kind of window has
template<typename V>
static void observe( V &v, Res &r, bool reverse_iterators, bool ends ) {
	V const &c = v;
	std::size_t const n = v.size( );
	r.push_back( static_cast<Int>( n ) );
	r.push_back( v.empty( ) );
	Res const f = walk( v.begin( ), v.end( ), n );
	r.insert( r.end( ), f.begin( ), f.end( ) );
	auto same = [&]( Res const &x, Res const &y, Int code ) {
		if( x != y )
			r.push_back( code );
	};
	same( f, walk( c.begin( ), c.end( ), n ), -101 );
	same( f, walk( c.cbegin( ), c.cend( ), n ), -102 );
	Res i1, i2;
	for( std::size_t i = 0; i < n; ++i ) {
		i1.push_back( static_cast<Int>( v[i] ) );
		i2.push_back( static_cast<Int>( c[i] ) );
	}
	same( f, i1, -103 );
	same( f, i2, -104 );
	if( c.empty( ) != v.empty( ) or c.size( ) != n )
		r.push_back( -105 );
	if( reverse_iterators ) {
		Res const b = walk( v.rbegin( ), v.rend( ), n );
		r.insert( r.end( ), b.begin( ), b.end( ) );
		same( b, walk( c.rbegin( ), c.rend( ), n ), -106 );
		same( b, walk( c.crbegin( ), c.crend( ), n ), -107 );
	}
	(void)ends;
}
template<typename V>
static void observe_ends( V &v, Res &r ) {
	V const &c = v;
	if( v.size( ) == 0 )
		return;
	r.push_back( static_cast<Int>( v.front( ) ) );
	r.push_back( static_cast<Int>( v.back( ) ) );
	if( c.front( ) != v.front( ) or c.back( ) != v.back( ) )
		r.push_back( -108 );
}
template<typename V>
static bool set_through( V &v, Op const &o ) {
	auto const i = static_cast<std::size_t>( o.i( 0 ) );
	auto const d = static_cast<std::ptrdiff_t>( i );
	T const x = static_cast<T>( o.i( 1 ) );
	auto const w = o.s( 2 );
	if( w == "idx" )
		v[i] = x;
	else if( w == "at" )
		v.at( i ) = x;
	else if( w == "it" )
		*std::next( v.begin( ), d ) = x;
	else if( w == "data" )
		*std::next( v.data( ), d ) = x;
	else if( w == "rit" )
		*std::next( v.rbegin( ), static_cast<std::ptrdiff_t>( v.size( ) ) - 1 - d ) = x;
	else if( w == "front" )
		v.front( ) = x;
	else if( w == "back" )
		v.back( ) = x;
	else
		return false;
	return true;
}
template<typename V>
static void at_op( V &v, Op const &o, Res &r ) {
	auto const i = static_cast<std::size_t>( o.i( 0 ) );
	Int got = -9;
	int const bad = o.i( 1 ) == 0 ? vt::refused( [&] { got = static_cast<Int>( v.at( i ) ); } )
	                              : vt::refused( [&] { got = static_cast<Int>( std::as_const( v ).at( i ) ); } );
	r.push_back( bad );
	if( not bad )
		r.push_back( got );
}

template<bool Const>
struct SpanW : Base {
	using S = daw::span<std::conditional_t<Const, T const, T>>;
	Buf b;
	S v;
	explicit SpanW( std::vector<Int> const &q )
	  : b( q )
	  , v( b.p.get( ), b.n ) {}
	std::size_t size( ) override {
		return v.size( );
	}
	std::ptrdiff_t off( ) override {
		return v.data( ) - b.p.get( );
	}
	Res buf( ) override {
		return b.all( );
	}
	template<typename X>
	void part( X &&x, Res &r ) {
		r.push_back( x.size( ) ? static_cast<Int>( x.data( ) - b.p.get( ) ) : 0 );
		r.push_back( static_cast<Int>( x.size( ) ) );
	}
	void op( Op const &o, Res &r ) override {
		auto const cnt = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		T *const p = b.p.get( );
		using P = std::conditional_t<Const, T const *, T *>;
		if( o.is( "obs" ) ) {
			observe( v, r, true, true );
			observe_ends( v, r );
			if( v.size_bytes( ) != v.size( ) * sizeof( T ) )
				r.push_back( -109 );
			if( std::as_const( v ).data( ) != v.data( ) )
				r.push_back( -110 );
		} else if( o.is( "new" ) ) {
			auto const w = o.s( 0 );
			P const f = p + o.i( 1 );
			P const l = p + o.i( 2 );
			if( w == "pc" )
				v = S( f, static_cast<std::size_t>( l - f ) );
			else if( w == "pp" )
				v = S( f, l );
			else if( w == "arr" ) {
				// arrays of the sizes in use
				switch( b.n ) {
				case 1:
					v = S( *reinterpret_cast<std::remove_pointer_t<P>( * )[1]>( const_cast<T *>( f ) ) );
					break;
				case 2:
					v = S( *reinterpret_cast<std::remove_pointer_t<P>( * )[2]>( const_cast<T *>( f ) ) );
					break;
				case 3:
					v = S( *reinterpret_cast<std::remove_pointer_t<P>( * )[3]>( const_cast<T *>( f ) ) );
					break;
				case 4:
					v = S( *reinterpret_cast<std::remove_pointer_t<P>( * )[4]>( const_cast<T *>( f ) ) );
					break;
				default:
					v = S( f, b.n );
				}
			} else {
				auto c = Cont<T>{ p, b.n };
				v = S( c );
			}
		} else if( o.is( "newrev" ) ) {
			v = S( P( p + o.i( 1 ) ), P( p + o.i( 0 ) ) );
			// reported as the empty window at the later place
			if( v.size( ) == 0 )
				v = S( P( p + o.i( 1 ) ), P( p + o.i( 1 ) ) );
		} else if( o.is( "newnull" ) ) {
			v = o.i( 0 ) == 0 ? S( nullptr ) : S( nullptr, cnt( 0 ) );
			S d{ };
			S e( static_cast<P>( nullptr ), cnt( 0 ) );
			r.push_back( v.data( ) == nullptr and d.data( ) == nullptr and d.size( ) == 0 and d.empty( ) and e.size( ) == 0 and e.data( ) == nullptr );
		} else if( o.is( "rmp" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_prefix( );
			else
				v.remove_prefix( cnt( 0 ) );
		} else if( o.is( "rms" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_suffix( );
			else
				v.remove_suffix( cnt( 0 ) );
		} else if( o.is( "popf" ) )
			r.push_back( static_cast<Int>( v.pop_front( ) ) );
		else if( o.is( "popb" ) )
			r.push_back( static_cast<Int>( v.pop_back( ) ) );
		else if( o.is( "popfn" ) or o.is( "popbn" ) ) {
			bool const front = o.is( "popfn" );
			Res x;
			x.reserve( 8 );
			int const bad = vt::refused( [&] {
				if( front )
					part( v.pop_front( cnt( 0 ) ), x );
				else
					part( v.pop_back( cnt( 0 ) ), x );
			} );
			r.push_back( bad );
			r.insert( r.end( ), x.begin( ), x.end( ) );
		} else if( o.is( "pop" ) ) {
			T x = static_cast<T>( 99 );
			bool const got = v.pop( x );
			r.push_back( got );
			r.push_back( got ? static_cast<Int>( x ) : ( x == static_cast<T>( 99 ) ? -9 : -8 ) );
		} else if( o.is( "at" ) )
			at_op( v, o, r );
		else if( o.is( "set" ) ) {
			if constexpr( not Const ) {
				if( not set_through( v, o ) )
					vt::bad_op( o );
			}
		} else if( o.is( "sub" ) ) {
			std::size_t const pos = cnt( 0 );
			bool const all = o.i( 1 ) < 0;
			std::size_t const c = all ? 0 : cnt( 1 );
			P nf = v.data( );
			std::size_t ns = v.size( );
			int const bad = vt::refused( [&] {
				if( o.i( 2 ) == 0 ) {
					auto q = all ? ( pos == 0 ? v.subspan( ) : v.subspan( pos ) ) : v.subspan( pos, c );
					nf = q.data( );
					ns = q.size( );
				} else {
					auto const &k = v;
					auto q = all ? k.subspan( pos ) : k.subspan( pos, c );
					nf = const_cast<P>( q.data( ) );
					ns = q.size( );
				}
			} );
			v = S( nf, ns );
			r.push_back( bad );
		} else if( o.is( "copy" ) ) {
			auto const &k = v;
			auto q = k.copy( );
			part( q, r );
			Res const all = b.all( );
			r.insert( r.end( ), all.begin( ), all.end( ) );
			daw::span<T const> k2 = v;
			part( k2, r );
		} else if( o.is( "swapw" ) ) {
			S x( v );
			S y{ };
			y = x;
			v = S{ };
			v = std::move( y );
		} else
			vt::bad_op( o );
	}
};

// view over pointers or list iterators
template<bool List>
struct ViewW : Base {
	using C = std::conditional_t<List, std::list<T>, Buf>;
	using It = std::conditional_t<List, typename std::list<T>::iterator, T *>;
	C b;
	std::size_t n;
	static C mk( std::vector<Int> const &q ) {
		if constexpr( List ) {
			std::list<T> r;
			for( Int x : q )
				r.push_back( static_cast<T>( x ) );
			return r;
		} else
			return Buf( q );
	}
	It nth( std::size_t i ) {
		if constexpr( List )
			return std::next( b.begin( ), static_cast<std::ptrdiff_t>( i ) );
		else
			return b.p.get( ) + i;
	}
	daw::view<It> v;
	explicit ViewW( std::vector<Int> const &q )
	  : b( mk( q ) )
	  , n( q.size( ) )
	  , v( nth( 0 ), nth( n ) ) {}
	std::size_t size( ) override {
		return v.size( );
	}
	std::ptrdiff_t off( It i ) {
		if constexpr( List )
			return std::distance( b.begin( ), i );
		else
			return i - b.p.get( );
	}
	std::ptrdiff_t off( ) override {
		return off( v.begin( ) );
	}
	Res buf( ) override {
		if constexpr( List )
			return walk( b.begin( ), b.end( ), n );
		else
			return b.all( );
	}
	void op( Op const &o, Res &r ) override {
		auto const cnt = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		if( o.is( "obs" ) ) {
			observe( v, r, true, true );
			observe_ends( v, r );
			if( v.ssize( ) != static_cast<std::ptrdiff_t>( v.size( ) ) )
				r.push_back( -109 );
		} else if( o.is( "new" ) )
			v = daw::view( nth( cnt( 1 ) ), nth( cnt( 2 ) ) );
		else if( o.is( "rmp" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_prefix( );
			else
				v.remove_prefix( cnt( 0 ) );
		} else if( o.is( "rms" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_suffix( );
			else
				v.remove_suffix( cnt( 0 ) );
		} else if( o.is( "popf" ) )
			r.push_back( static_cast<Int>( v.pop_front( ) ) );
		else if( o.is( "popb" ) )
			r.push_back( static_cast<Int>( v.pop_back( ) ) );
		else if( o.is( "popfn" ) or o.is( "popbn" ) ) {
			auto q = o.is( "popfn" ) ? v.pop_front( cnt( 0 ) ) : v.pop_back( cnt( 0 ) );
			r.push_back( 0 );
			r.push_back( q.size( ) ? static_cast<Int>( off( q.begin( ) ) ) : 0 );
			r.push_back( static_cast<Int>( q.size( ) ) );
			if( off( q.end( ) ) - off( q.begin( ) ) != q.ssize( ) )
				r.push_back( -111 );
		} else if( o.is( "pop" ) ) {
			T x = static_cast<T>( 99 );
			bool const got = v.pop( x );
			r.push_back( got );
			r.push_back( got ? static_cast<Int>( x ) : ( x == static_cast<T>( 99 ) ? -9 : -8 ) );
		} else if( o.is( "at" ) )
			at_op( v, o, r );
		else if( o.is( "set" ) ) {
			if( not set_through( v, o ) )
				vt::bad_op( o );
		} else
			vt::bad_op( o );
	}
};

template<bool Const>
struct CvW : Base {
	using E = std::conditional_t<Const, T const, T>;
	using S = daw::contiguous_view<E>;
	Buf b;
	S v{ };
	explicit CvW( std::vector<Int> const &q )
	  : b( q ) {
		go( b.p.get( ), b.p.get( ) + b.n );
	}
	void go( E *f, E *l ) {
		S x( f, l );
		v = x;
	}
	std::size_t size( ) override {
		return v.size( );
	}
	std::ptrdiff_t off( ) override {
		return v.data( ) - b.p.get( );
	}
	Res buf( ) override {
		return b.all( );
	}
	void op( Op const &o, Res &r ) override {
		auto const cnt = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		T *const p = b.p.get( );
		if( o.is( "obs" ) ) {
			observe( v, r, true, true );
			if constexpr( not Const )
				observe_ends( v, r );
			else if( v.size( ) ) {
				r.push_back( static_cast<Int>( v[0] ) );
				r.push_back( static_cast<Int>( v[v.size( ) - 1] ) );
			}
			if( v.data_end( ) - v.data( ) != static_cast<std::ptrdiff_t>( v.size( ) ) or std::as_const( v ).data( ) != v.data( ) or
			    std::as_const( v ).data_end( ) != v.data_end( ) )
				r.push_back( -109 );
		} else if( o.is( "new" ) ) {
			auto const w = o.s( 0 );
			E *f = p + o.i( 1 );
			E *l = p + o.i( 2 );
			if( w == "pc" ) {
				S x( f, static_cast<std::size_t>( l - f ) );
				v = x;
			} else if( w == "pp" )
				go( f, l );
			else if( w == "arr" ) {
				if( b.n == 3 ) {
					S x( *reinterpret_cast<E( * )[3]>( const_cast<T *>( f ) ) );
					v = x;
				} else if( b.n == 2 ) {
					S x( *reinterpret_cast<E( * )[2]>( const_cast<T *>( f ) ) );
					v = x;
				} else
					go( f, l );
			} else {
				std::span<T> c( p, b.n );
				if( w == "cont" ) {
					S x( c );
					v = x;
				} else {
					S x( c, cnt( 2 ) );
					v = x;
				}
			}
		} else if( o.is( "newbad" ) ) {
			std::span<T> c( p, b.n );
			r.push_back( vt::refused( [&] {
				S x( c, cnt( 0 ) );
				v = x;
			} ) );
		} else if( o.is( "rmp" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_prefix( );
			else
				v.remove_prefix( cnt( 0 ) );
		} else if( o.is( "rms" ) ) {
			if( cnt( 0 ) == 1 )
				v.remove_suffix( );
			else
				v.remove_suffix( cnt( 0 ) );
		} else if( o.is( "rmpx" ) )
			v.remove_prefix( cnt( 0 ), daw::dont_clip_to_bounds );
		else if( o.is( "rmsx" ) )
			v.remove_suffix( cnt( 0 ), daw::dont_clip_to_bounds );
		else if( o.is( "popf" ) )
			r.push_back( static_cast<Int>( v.pop_front( ) ) );
		else if( o.is( "popb" ) )
			r.push_back( static_cast<Int>( v.pop_back( ) ) );
		else if( o.is( "at" ) )
			at_op( v, o, r );
		else if( o.is( "set" ) ) {
			if constexpr( not Const ) {
				if( not set_through( v, o ) )
					vt::bad_op( o );
			}
		} else if( o.is( "sub" ) ) {
			std::size_t const pos = cnt( 0 );
			E *nf = v.data( );
			E *nl = v.data_end( );
			int const bad = vt::refused( [&] {
				auto q = o.i( 1 ) < 0 ? v.subspan( pos ) : v.subspan( pos, cnt( 1 ) );
				nf = q.data( );
				nl = q.data_end( );
			} );
			go( nf, nl );
			r.push_back( bad );
		} else if( o.is( "find" ) or o.is( "findnot" ) ) {
			T const x = static_cast<T>( o.i( 0 ) );
			S const &c = v;
			if( o.is( "find" ) )
				r.push_back( o.i( 1 ) ? c.find( x ) - c.begin( ) : v.find( x ) - v.begin( ) );
			else
				r.push_back( o.i( 1 ) ? c.find_first_not_of( x ) - c.begin( ) : v.find_first_not_of( x ) - v.begin( ) );
		} else if( o.is( "rmuntil" ) or o.is( "rmwhile" ) ) {
			T const x = static_cast<T>( o.i( 0 ) );
			S *self;
			if( o.is( "rmuntil" ) )
				self = o.i( 1 ) ? &v.remove_prefix_until( x, daw::discard ) : &v.remove_prefix_until( x );
			else
				self = o.i( 1 ) ? &v.remove_prefix_while( x, daw::discard ) : &v.remove_prefix_while( x );
			if( self != &v )
				r.push_back( -112 );
		} else if( o.is( "popuntil" ) or o.is( "popwhile" ) ) {
			T const x = static_cast<T>( o.i( 0 ) );
			auto q = o.is( "popuntil" ) ? ( o.i( 1 ) ? v.pop_front_until( x, daw::discard ) : v.pop_front_until( x ) )
			                            : ( o.i( 1 ) ? v.pop_front_while( x, daw::discard ) : v.pop_front_while( x ) );
			r.push_back( q.size( ) ? static_cast<Int>( q.data( ) - p ) : 0 );
			r.push_back( static_cast<Int>( q.size( ) ) );
		} else if( o.is( "cmp" ) ) {
			Buf const q( o.l( 0 ) );
			S y( q.p.get( ), q.n );
			r.push_back( v == y );
			r.push_back( v != y );
			r.push_back( v < y );
			r.push_back( v > y );
			r.push_back( v <= y );
			r.push_back( v >= y );
		} else if( o.is( "addp" ) ) {
			if( cnt( 0 ) == 1 )
				v.add_prefix( );
			else
				v.add_prefix( cnt( 0 ) );
		} else if( o.is( "adds" ) ) {
			if( cnt( 0 ) == 1 )
				v.add_suffix( );
			else
				v.add_suffix( cnt( 0 ) );
		} else if( o.is( "conv" ) ) {
			auto c = static_cast<std::span<T const>>( std::as_const( v ) );
			for( auto x : c )
				r.push_back( static_cast<Int>( x ) );
		} else if( o.is( "swapw" ) ) {
			S x( v );
			S y{ };
			y = x;
			S z{ };
			v = z;
			v = y;
			if constexpr( not Const ) {
				daw::contiguous_view<T const> k( v );
				if( k.data( ) != v.data( ) or k.size( ) != v.size( ) )
					r.push_back( -113 );
			}
		} else
			vt::bad_op( o );
	}
};

template<bool Free>
struct WrW : Base {
	Buf b;
	daw::span_writer<T> v;
	std::span<T> f;
	explicit WrW( std::vector<Int> const &q )
	  : b( q ) {
		f = std::span<T>( b.p.get( ), b.n );
		v = daw::span_writer<T>( f );
	}
	std::size_t size( ) override {
		return Free ? f.size( ) : v.size( );
	}
	std::ptrdiff_t off( ) override {
		return ( Free ? f.data( ) : v.data( ) ) - b.p.get( );
	}
	Res buf( ) override {
		return b.all( );
	}
	template<typename... A>
	void wr( A &&...a ) {
		if constexpr( Free )
			f = daw::write_to_span( f, std::forward<A>( a )... );
		else if( &v.write( std::forward<A>( a )... ) != &v )
			std::terminate( );
	}
	template<std::size_t M>
	void ntz( char const ( &s )[M] ) {
		if constexpr( Free )
			f = daw::write_to_span_ntz( f, s );
		else if( &v.write_ntz( s ) != &v )
			std::terminate( );
	}
	void op( Op const &o, Res &r ) override {
		auto const cnt = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		T *const p = b.p.get( );
		if( o.is( "obs" ) ) {
			auto const &c = v;
			std::size_t const n = v.size( );
			r.push_back( static_cast<Int>( n ) );
			r.push_back( v.begin( ) == v.end( ) );
			Res const x = walk( v.begin( ), v.end( ), n );
			r.insert( r.end( ), x.begin( ), x.end( ) );
			r.insert( r.end( ), x.rbegin( ), x.rend( ) );
			if( x != walk( c.begin( ), c.end( ), n ) )
				r.push_back( -101 );
			for( std::size_t i = 0; i < n; ++i )
				if( &v[i] != v.data( ) + i or &c[i] != c.data( ) + i or v.data( ) != c.data( ) )
					r.push_back( -103 );
		} else if( o.is( "new" ) ) {
			std::span<T> c( p, b.n );
			auto const n = cnt( 2 );
			auto const w = o.s( 0 );
			if( Free )
				f = c.subspan( 0, n );
			else if( w == "cont" ) {
				v = daw::span_writer<T>( c );
			} else
				v = daw::span_writer<T>( c, n );
		} else if( o.is( "newbad" ) ) {
			std::span<T> c( p, b.n );
			r.push_back( vt::refused( [&] { v = daw::span_writer<T>( c, cnt( 0 ) ); } ) );
		} else if( o.is( "rmp" ) )
			r.push_back( vt::refused( [&] {
				if( &v.remove_prefix( cnt( 0 ) ) != &v )
					r.push_back( -114 );
			} ) );
		else if( o.is( "sub" ) )
			r.push_back( vt::refused( [&] { v = std::as_const( v ).subspan( cnt( 0 ) ); } ) );
		else if( o.is( "set" ) ) {
			auto const i = cnt( 0 );
			T const x = static_cast<T>( o.i( 1 ) );
			if( o.s( 2 ) == "idx" )
				v[i] = x;
			else if( o.s( 2 ) == "it" )
				v.begin( )[i] = x;
			else
				v.data( )[i] = x;
		} else if( o.is( "idxbad" ) ) {
			T x{ };
			r.push_back( vt::refused( [&] { x = v[cnt( 0 )]; } ) );
			r.push_back( vt::refused( [&] { x = std::as_const( v )[cnt( 0 )]; } ) );
		} else if( o.is( "write" ) ) {
			auto const q = o.l( 0 );
			r.push_back( vt::refused( [&] {
				switch( q.size( ) ) {
				case 0:
					wr( );
					break;
				case 1:
					wr( static_cast<int>( q[0] ) );
					break;
				case 2:
					wr( static_cast<long>( q[0] ), static_cast<short>( q[1] ) );
					break;
				default: {
					char x = static_cast<char>( q[2] );
					T const y = static_cast<T>( q[1] );
					wr( static_cast<T>( q[0] ), y, x );
				}
				}
			} ) );
		} else if( o.is( "writer" ) ) {
			auto const q = o.l( 0 );
			std::vector<T> const vec( q.begin( ), q.end( ) );
			std::vector<long long> const wide( q.begin( ), q.end( ) );
			r.push_back( vt::refused( [&] {
				if( o.s( 1 ) == "vec" )
					wr( vec );
				else if( o.s( 1 ) == "wide" )
					wr( wide );
				else {
					std::array<short, 2> a2{ };
					std::array<T, 3> a3{ };
					if( q.size( ) == 2 ) {
						std::copy( q.begin( ), q.end( ), a2.begin( ) );
						wr( a2 );
					} else if( q.size( ) == 3 ) {
						std::copy( q.begin( ), q.end( ), a3.begin( ) );
						wr( a3 );
					} else
						wr( vec );
				}
			} ) );
		} else if( o.is( "ntz" ) ) {
			r.push_back( vt::refused( [&] {
				switch( o.i( 0 ) ) {
				case 0:
					ntz( "" );
					break;
				case 1:
					ntz( "\1" );
					break;
				case 2:
					ntz( "\1\3" );
					break;
				default:
					ntz( "\1\3\2" );
				}
			} ) );
		} else if( o.is( "ntzbad" ) ) {
			char const bad[1] = { 'x' };
			r.push_back( vt::refused( [&] { ntz( bad ); } ) );
		} else
			vt::bad_op( o );
	}
};

struct World {
	static inline std::string variant;
	std::unique_ptr<Base> w;
	explicit World( vt::Cfg const &c ) {
		auto const t = c.s( "t" );
		auto const b = c.l( "b" );
		if( t == "span" )
			w = std::make_unique<SpanW<false>>( b );
		else if( t == "cspan" )
			w = std::make_unique<SpanW<true>>( b );
		else if( t == "view" )
			w = std::make_unique<ViewW<false>>( b );
		else if( t == "lview" )
			w = std::make_unique<ViewW<true>>( b );
		else if( t == "cv" )
			w = std::make_unique<CvW<false>>( b );
		else if( t == "ccv" )
			w = std::make_unique<CvW<true>>( b );
		else if( t == "wr" )
			w = std::make_unique<WrW<false>>( b );
		else
			w = std::make_unique<WrW<true>>( b );
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
		std::size_t const n = w->size( );
		r.push_back( n ? static_cast<Int>( w->off( ) ) : 0 );
		r.push_back( static_cast<Int>( n ) );
		Res const b = w->buf( );
		r.insert( r.end( ), b.begin( ), b.end( ) );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
