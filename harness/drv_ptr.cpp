// not_null, observer_ptr and prop_const_ptr (spec/Ptr.tla). One library per
// program: LIB 0 not_null<int *>, 1 observer_ptr, 2 prop_const_ptr, 3 not_null of a pointer class.
#include "refuse.h"
#include "trace.h"

#include <functional>
#include <memory>
#include <string>
#include <utility>

#if LIB == 1
#include <daw/daw_observer_ptr.h>
#elif LIB == 2
#include <daw/daw_prop_const_ptr.h>
#else
#include <daw/daw_not_null.h>
#endif

using vt::Int;
using vt::Op;
using vt::Res;

// each element is a class derived of a base at another offset, so that a
// conversion has to adjust the pointer
struct First {
	Int pad = 0;
};
struct Elem {
	Int v = 0;
};
struct Derived : First, Elem {};

static Derived buf[5];
#if LIB == 1
using T = Elem;
static Elem *ptr( Int i ) {
	return i == 0 ? nullptr : static_cast<Elem *>( &buf[i - 1] );
}
static Int pos( Elem const *p ) {
	for( Int i = 0; i <= 5; ++i )
		if( ptr( i ) == p )
			return i;
	return -99;
}
#else
using T = Elem;
static Elem cells[5];
#define CELLS 1
static Elem *ptr( Int i ) {
	return i == 0 ? nullptr : cells + ( i - 1 );
}
static Int pos( Elem const *p ) {
	if( p == nullptr )
		return 0;
	return p >= cells and p <= cells + 4 ? p - cells + 1 : -99;
}
#endif
static Int &cell( Int i ) {
	return ptr( i )->v;
}

#if LIB == 0
using W = daw::not_null<T *>;
using P = T *;
static P raw( Int i ) { return ptr( i ); }
static Int at( W const &w ) { return pos( w.get( ) ); }
#elif LIB == 1
using W = daw::observer_ptr<T>;
using P = T *;
static P raw( Int i ) { return ptr( i ); }
static Int at( W const &w ) { return pos( w.get( ) ); }
#elif LIB == 2
using W = daw::prop_const_ptr<T>;
using P = T *;
static P raw( Int i ) { return ptr( i ); }
static Int at( W const &w ) { return pos( w.get( ) ); }
#else
// a pointer that is a class
struct Fancy {
	T *p = nullptr;
	constexpr T &operator*( ) const { return *p; }
	constexpr T *operator->( ) const { return p; }
	constexpr Fancy &operator++( ) { ++p; return *this; }
	constexpr Fancy &operator--( ) { --p; return *this; }
	constexpr Fancy &operator+=( std::ptrdiff_t n ) { p += n; return *this; }
	constexpr Fancy &operator-=( std::ptrdiff_t n ) { p -= n; return *this; }
	friend constexpr Fancy operator+( Fancy x, std::ptrdiff_t n ) { return { x.p + n }; }
	friend constexpr std::ptrdiff_t operator-( Fancy x, Fancy y ) { return x.p - y.p; }
	friend constexpr bool operator==( Fancy x, Fancy y ) { return x.p == y.p; }
	friend constexpr bool operator!=( Fancy x, Fancy y ) { return x.p != y.p; }
	friend constexpr bool operator<( Fancy x, Fancy y ) { return x.p < y.p; }
	friend constexpr bool operator<=( Fancy x, Fancy y ) { return x.p <= y.p; }
	friend constexpr bool operator>( Fancy x, Fancy y ) { return x.p > y.p; }
	friend constexpr bool operator>=( Fancy x, Fancy y ) { return x.p >= y.p; }
};
template<>
struct std::hash<Fancy> {
	std::size_t operator( )( Fancy x ) const { return std::hash<T *>{ }( x.p ); }
};
using P = Fancy;
using W = daw::not_null<P>;
static P raw( Int i ) { return P{ ptr( i ) }; }
static Int at( W const &w ) { return pos( w.get( ).p ); }
#endif

template<typename A, typename B>
static void cmp( A const &x, B const &y, Res &r ) {
	r.push_back( x == y );
	r.push_back( x != y );
	r.push_back( x < y );
	r.push_back( x <= y );
	r.push_back( x > y );
	r.push_back( x >= y );
}

struct World {
	inline static std::string variant;
	W a, b;
	explicit World( vt::Cfg const &c )
	  : a( raw( c.i( "a" ) ) )
	  , b( raw( c.i( "b" ) ) ) {
		for( Int i = 1; i <= 4; ++i )
			cell( i ) = 10 + i;
	}
	void run( Op const &o, Res &r ) {
		if( o.is( "set" ) ) {
			P p = raw( o.i( 0 ) );
			if( o.i( 1 ) == 0 )
				a = p;
			else if( o.i( 1 ) == 1 )
				a = W( p );
#if LIB == 0 or LIB == 3
			else
				a = W( daw::never_null, p );
#endif
		} else if( o.is( "copy" ) ) {
			if( o.i( 0 ) == 0 )
				a = b;
			else {
				W const c( b );
				a = c;
			}
		} else if( o.is( "swap" ) ) {
			using std::swap;
			swap( a, b );
		} else if( o.is( "rd" ) ) {
			W const &c = a;
			r.push_back( a->v );
			r.push_back( c->v );
			r.push_back( ( *a ).v );
			r.push_back( ( *c ).v );
			r.push_back( a.get( )->v );
			r.push_back( c.get( )->v );
		} else if( o.is( "wr" ) ) {
			Int const v = 20 + o.i( 0 );
			switch( o.i( 0 ) ) {
			case 0: a->v = v; break;
			case 1: ( *a ).v = v; break;
			default: a.get( )->v = v; break;
			}
		} else if( o.is( "cmp" ) ) {
			switch( o.i( 0 ) ) {
			case 0: return cmp( a, b, r );
#if LIB != 2
			case 1: return cmp( a, raw( at( b ) ), r );
#if LIB == 1
			default: {
				for( bool x : { a == raw( at( b ) ), a != raw( at( b ) ), ( a <=> raw( at( b ) ) ) < 0, ( a <=> b ) <= 0, ( a <=> raw( at( b ) ) ) > 0, ( a <=> b ) >= 0 } )
					r.push_back( x );
				return;
			}
#else
			case 2: return cmp( raw( at( a ) ), b, r );
#endif
#endif
#if LIB == 0
			default: return cmp( a, daw::not_null<T const *>( raw( at( b ) ) ), r );
#endif
			}
			vt::bad_op( o );
		}
#if LIB == 0 or LIB == 3
		else if( o.is( "null" ) ) {
			P const none = raw( 0 );
			r.push_back( vt::refused( [&] {
				if( o.i( 0 ) == 0 )
					(void)W{ none };
				else {
					W c( a );
					c = none;
				}
			} ) );
		} else if( o.is( "hash" ) ) {
			r.push_back( std::hash<W>{ }( a ) == std::hash<P>{ }( raw( at( a ) ) ) );
		}
#endif
#if LIB == 0 or LIB == 3
		else if( o.is( "conv" ) ) {
			P p = a;
			W const c = a;
			P const q = c;
			r.push_back( pos( &*p ) );
			r.push_back( pos( &*q ) );
		} else if( o.is( "at" ) ) {
			W const &c = a;
			r.push_back( o.i( 1 ) == 0 ? a[o.i( 0 )].v : c[static_cast<int>( o.i( 0 ) )].v );
		} else if( o.is( "plus" ) ) {
			std::ptrdiff_t const n = o.i( 0 );
			W const c = a;
			switch( o.i( 1 ) ) {
			case 0: r.push_back( at( a + n ) ); break;
			case 1: r.push_back( at( n + c ) ); break;
			case 2: r.push_back( at( c - ( -n ) ) ); break;
			default: r.push_back( at( c + n ) ); break;
			}
		}
#endif
#if LIB == 2
		else if( o.is( "conv" ) ) {
			daw::prop_const_ptr<T const> p( a );
			daw::prop_const_ptr<T const> q( raw( 1 ) );
			q = a;
			r.push_back( pos( p.get( ) ) );
			r.push_back( pos( q.get( ) ) );
		} else if( o.is( "at" ) ) {
			W const &c = a;
			r.push_back( o.i( 1 ) == 0 ? a[o.i( 0 )].v : c[o.i( 0 )].v );
		} else if( o.is( "plus" ) ) {
			W const &c = a;
			if( o.i( 1 ) == 0 )
				r.push_back( at( a + o.i( 0 ) ) );
			else {
				auto const x = c + o.i( 0 );
				r.push_back( pos( x.get( ) ) );
			}
		}
#endif
#if LIB != 1
		else if( o.is( "step" ) ) {
			if( o.i( 0 ) == 1 ) {
				if( o.i( 1 ) == 0 )
					r.push_back( at( ++a ) );
				else {
					auto x = a++;
					r.push_back( at( x ) );
				}
			} else if( o.i( 1 ) == 0 )
				r.push_back( at( --a ) );
			else {
				auto x = a--;
				r.push_back( at( x ) );
			}
		} else if( o.is( "add" ) ) {
			if( o.i( 1 ) == 0 )
				r.push_back( at( a += o.i( 0 ) ) );
			else
				r.push_back( at( a -= -o.i( 0 ) ) );
		} else if( o.is( "diff" ) ) {
			r.push_back( a - b );
			W const c = b;
			r.push_back( c - a );
		} else if( o.is( "atw" ) )
			a[o.i( 0 )].v = 30;
#endif
#if LIB == 1
		else if( o.is( "null" ) ) {
			if( o.i( 0 ) == 0 )
				a = W( nullptr );
			else
				a = nullptr;
			r.push_back( 0 );
		} else if( o.is( "bool" ) )
			r.push_back( static_cast<bool>( a ) );
		else if( o.is( "release" ) )
			r.push_back( pos( a.release( ) ) );
		else if( o.is( "reset" ) ) {
			if( o.i( 0 ) == 0 )
				a.reset( );
			else
				a.reset( raw( o.i( 0 ) ) );
		} else if( o.is( "out" ) ) {
			T **p = a.get_out( );
			r.push_back( pos( *p ) );
			*p = raw( o.i( 0 ) );
		} else if( o.is( "then" ) ) {
			Int calls = 0;
			W const x = a.and_then( [&]( W p ) -> W {
				++calls;
				return o.i( 0 ) == 0 ? p : W( nullptr );
			} );
			r.push_back( calls );
			r.push_back( at( x ) );
		} else if( o.is( "else" ) ) {
			Int calls = 0;
			W const x = a.or_else( [&]( ) -> W {
				++calls;
				return o.i( 0 ) == 0 ? b : W( nullptr );
			} );
			r.push_back( calls );
			r.push_back( at( x ) );
		} else if( o.is( "tr" ) ) {
			Int calls = 0;
			auto const f = [&]( W const &p ) {
				++calls;
				return at( p );
			};
			W const &c = a;
			Int const x = o.i( 0 ) == 0 ? a.transform( f ) : c.transform( f );
			r.push_back( calls );
			r.push_back( x );
		} else if( o.is( "conv" ) ) {
			T *p = a;
			Int const i = at( a );
			daw::observer_ptr<Derived> const d( i == 0 ? nullptr : &buf[i - 1] );
			W const u( d );
			r.push_back( pos( p ) );
			r.push_back( at( u ) );
		}
#endif
		else
			vt::bad_op( o );
	}
	void op( Op const &o, Res &r ) {
		run( o, r );
		r.push_back( -50 );
		r.push_back( at( a ) );
		r.push_back( at( b ) );
		for( Int i = 1; i <= 4; ++i )
			r.push_back( cell( i ) );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
