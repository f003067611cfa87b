// Conformance driver for daw::sort, daw::sort_N, daw::sort_to (spec/Sort.tla)
#include "trace.h"

#include <daw/daw_sort_n.h>

#include <algorithm>
#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <string>

using vt::Int;
using vt::Op;
using vt::Res;

static Int key( Int c ) {
	return c >> 12;
}
struct Cmp {
	Int c;
	bool lt( Int a, Int b ) const {
		switch( c ) {
		case 0:
			return key( a ) < key( b );
		case 1:
			return key( a ) > key( b );
		case 2:
			return a < b;
		default:
			return a > b;
		}
	}
};
template<typename T>
struct Conv {
	static T mk( Int x ) {
		return static_cast<T>( x );
	}
	static Int val( T const &x ) {
		return static_cast<Int>( x );
	}
};
template<bool C, bool M>
struct Conv<vt::Tracked<C, M>> {
	static vt::Tracked<C, M> mk( Int x ) {
		return vt::Tracked<C, M>( x );
	}
	static Int val( vt::Tracked<C, M> const &x ) {
		return x.v;
	}
};
template<>
struct Conv<std::string> {
	static std::string mk( Int x ) {
		return std::to_string( x ) + "                              ";
	}
	static Int val( std::string const &x ) {
		return x.empty( ) ? -999999999 : std::atoll( x.c_str( ) );
	}
};
template<>
struct Conv<double> {
	static double mk( Int x ) {
		return static_cast<double>( x ) + 0.25;
	}
	static Int val( double x ) {
		return static_cast<Int>( std::floor( x ) );
	}
};

static std::vector<Int> gen( Int n, Int pat, Int seed ) {
	std::vector<Int> R, q;
	Int x = ( seed * 7919 + 13 ) % 65537;
	for( Int i = 0; i < n; ++i ) {
		x = ( x * 75 + 74 ) % 65537;
		R.push_back( x );
	}
	for( Int i = 1; i <= n; ++i ) {
		Int const r = R[static_cast<std::size_t>( i - 1 )];
		Int k = 0;
		switch( pat ) {
		case 0: k = r % 1000; break;
		case 1: k = i; break;
		case 2: k = n - i; break;
		case 3: k = 2 * i <= n ? i : n - i; break;
		case 4: k = r % 8 == 0 ? r % ( n + 1 ) : i; break;
		case 5: k = 7; break;
		case 6: k = r % 2; break;
		case 7: k = i == 1 + ( R[0] % n ) ? R[static_cast<std::size_t>( n - 1 )] % ( n + 1 ) : i; break;
		case 8: k = r % 4; break;
		case 9: k = ( r % 40 ) - 20; break;
		case 10: k = ( i * 7 ) % 10; break;
		case 11: k = i == n ? 0 : i; break;
		}
		q.push_back( k * 4096 + i - 1 );
	}
	return q;
}

template<typename It, typename C>
bool net( std::size_t n, It f, C const &c ) {
	switch( n ) {
	case 3: daw::sort_3( f, c ); return true;
	case 4: daw::sort_4( f, c ); return true;
	case 5: daw::sort_5( f, c ); return true;
	case 6: daw::sort_6( f, c ); return true;
	case 7: daw::sort_7( f, c ); return true;
	case 8: daw::sort_8( f, c ); return true;
	case 16: daw::sort_16( f, c ); return true;
	case 32: daw::sort_32( f, c ); return true;
	}
	return false;
}

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

// one extraction run: comparator answers follow `ans`; records compared positions and the movement afterwards
struct Probe {
	Int *base;
	std::size_t n;
	std::vector<Int> snap;
	std::vector<Int> pos;  // i, j pairs
	std::vector<Int> act;  // movement after the comparison
	std::vector<bool> given;
	bool ok = true;
	int mode;
	unsigned rng = 1;
	Int dir;
	Probe( Int *b, std::size_t sz, int m, Int d )
	  : base( b ), n( sz ), snap( b, b + sz ), mode( m ), dir( d ) {}
	void settle( ) {
		if( pos.empty( ) )
			return;
		auto const i = static_cast<std::size_t>( pos[pos.size( ) - 2] );
		auto const j = static_cast<std::size_t>( pos[pos.size( ) - 1] );
		std::vector<Int> now( base, base + n );
		if( now == snap )
			act.push_back( 0 );
		else {
			std::swap( snap[i], snap[j] );
			if( now != snap )
				ok = false;
			act.push_back( 1 );
		}
		snap = now;
	}
	bool ask( Int const &a, Int const &b ) {
		auto inside = [&]( Int const &x ) {
			return &x >= base and &x < base + n;
		};
		if( not inside( a ) or not inside( b ) ) {
			ok = false;
			return dir == 0 ? a < b : b < a;
		}
		settle( );
		pos.push_back( &a - base );
		pos.push_back( &b - base );
		bool res;
		if( mode == 0 )
			res = true;
		else if( mode == 1 )
			res = false;
		else
			res = dir == 0 ? a < b : b < a;
		given.push_back( res );
		if( pos.size( ) > 4000 )
			std::_Exit( 96 );
		return res;
	}
};

template<typename T>
struct World : Base {
	using C = Conv<T>;
	struct L {
		Cmp c;
		bool operator( )( T const &a, T const &b ) const {
			return c.lt( C::val( a ), C::val( b ) );
		}
	};
	static constexpr std::size_t G = 4;
	static T guard( std::size_t i ) {
		return C::mk( 500000000 + static_cast<Int>( i ) );
	}
	template<typename Box>
	static Int bad( Box const &b, std::size_t n ) {
		Int e = 0;
		for( std::size_t i = 0; i < G; ++i ) {
			if( C::val( b[i] ) != 500000000 + static_cast<Int>( i ) )
				++e;
			if( C::val( b[G + n + i] ) != 500000000 + static_cast<Int>( i ) )
				++e;
		}
		return e;
	}
	template<typename Box>
	static void fill( Box &b, std::vector<Int> const &in ) {
		for( std::size_t i = 0; i < G; ++i )
			b.push_back( guard( i ) );
		for( auto x : in )
			b.push_back( C::mk( x ) );
		for( std::size_t i = 0; i < G; ++i )
			b.push_back( guard( i ) );
	}
	template<typename Box, typename F>
	static void in_box( std::vector<Int> const &in, Res &r, F f ) {
		Box b;
		fill( b, in );
		auto first = b.begin( ) + static_cast<std::ptrdiff_t>( G );
		auto last = first + static_cast<std::ptrdiff_t>( in.size( ) );
		Int const e = f( first, last );
		r.push_back( bad( b, in.size( ) ) );
		r.push_back( e );
		for( ; first != last; ++first )
			r.push_back( C::val( *first ) );
	}
	void run( std::string const &how, std::vector<Int> const &in, Int c, Res &r ) {
		std::size_t const n = in.size( );
		Int const N = static_cast<Int>( n );
		L cmp{ Cmp{ c } };
		if( how[0] == 'n' ) {
			std::size_t const k = static_cast<std::size_t>( std::atoi( how.c_str( ) + 1 ) );
			if( k != n ) {
				r.push_back( -1 );
				return;
			}
			if( c == 2 and not std::is_same_v<T, std::string> )
				in_box<std::deque<T>>( in, r, [&]( auto f, auto ) {
					net( n, f, std::less<>{ } );
					return N;
				} );
			else
				in_box<std::vector<T>>( in, r, [&]( auto f, auto ) {
					net( n, std::to_address( f ), cmp );
					return N;
				} );
		} else if( how == "ptr" ) {
			in_box<std::vector<T>>( in, r, [&]( auto f, auto ) {
				T *p = std::to_address( f );
				daw::sort( p, p + n, cmp );
				return N;
			} );
		} else if( how == "vec" ) {
			in_box<std::vector<T>>( in, r, [&]( auto f, auto l ) {
				if constexpr( not std::is_same_v<T, std::string> ) {
					if( c == 2 ) {
						daw::sort( f, l );
						return N;
					}
					if( c == 3 ) {
						daw::sort( f, l, std::greater<>{ } );
						return N;
					}
				}
				daw::sort( f, l, cmp );
				return N;
			} );
		} else if( how == "deq" ) {
			in_box<std::deque<T>>( in, r, [&]( auto f, auto l ) {
				daw::sort( f, l, L{ Cmp{ c } } );
				return N;
			} );
		} else if( how == "ins" ) {
			if( n < 3 ) {
				r.push_back( -1 );
				return;
			}
			in_box<std::vector<T>>( in, r, [&]( auto f, auto l ) {
				daw::sort_n_details::insertion_sort_3( f, l, cmp );
				return N;
			} );
		} else if( how[0] == 't' ) { // sort_to: t = from vector, tl = from list, tf = from forward_list
			std::vector<T> src;
			for( auto x : in )
				src.push_back( C::mk( x ) );
			std::list<T> ls;
			std::forward_list<T> fl;
			if( how == "tl" )
				for( auto x : in )
					ls.push_back( C::mk( x ) );
			if( how == "tf" ) {
				for( auto it = in.rbegin( ); it != in.rend( ); ++it )
					fl.push_front( C::mk( *it ) );
			}
			std::vector<Int> blank( n, -12345 );
			auto go = [&]( auto a, auto b ) {
				in_box<std::vector<T>>( blank, r, [&]( auto f, auto ) -> Int {
					if constexpr( not std::is_same_v<T, std::string> ) {
						if( c == 2 )
							return daw::sort_to( a, b, f ) - f;
						if( c == 3 )
							return daw::sort_to( a, b, f, std::greater<>{ } ) - f;
					}
					return daw::sort_to( a, b, f, cmp ) - f;
				} );
			};
			if constexpr( std::is_copy_assignable_v<T> ) {
				if( how == "tl" )
					go( ls.cbegin( ), ls.cend( ) );
				else if( how == "tf" )
					go( fl.begin( ), fl.end( ) );
				else
					go( src.begin( ), src.end( ) );
				for( std::size_t i = 0; i < n; ++i ) // the source is only read
					if( C::val( src[i] ) != in[i] )
						++vt::errs;
			}
		}
	}
	void op( Op const &o, Res &r ) override {
		if( o.is( "sort" ) ) {
			std::vector<Int> in;
			for( auto k : o.l( 1 ) )
				in.push_back( k * 4096 + static_cast<Int>( in.size( ) ) );
			run( o.s( 0 ), in, o.i( 2 ), r );
		} else if( o.is( "gen" ) ) {
			run( o.s( 0 ), gen( o.i( 1 ), o.i( 2 ), o.i( 3 ) ), o.i( 4 ), r );
		} else if( o.is( "net" ) ) {
			auto const n = o.u( 0 );
			Int const dir = o.i( 1 );
			std::vector<Probe> ps;
			std::vector<std::vector<Int>> bufs( 40 );
			for( int m = 0; m < 40; ++m ) {
				auto &b = bufs[static_cast<std::size_t>( m )];
				unsigned x = static_cast<unsigned>( m ) * 2654435761U + 17U;
				for( std::size_t i = 0; i < n; ++i )
					b.push_back( static_cast<Int>( i ) );
				if( m >= 2 )
					for( std::size_t i = n - 1; i > 0; --i ) {
						x = x * 1664525U + 1013904223U;
						std::swap( b[i], b[( x >> 8 ) % ( i + 1 )] );
					}
				Probe p( b.data( ), n, m, dir );
				net( n, b.data( ), [&]( Int const &a, Int const &c ) {
					return p.ask( a, c );
				} );
				p.settle( );
				ps.push_back( std::move( p ) );
			}
			bool obl = true;
			for( auto const &p : ps )
				obl = obl and p.ok and p.pos == ps[0].pos;
			if( obl )
				for( auto const &p : ps )
					for( std::size_t k = 0; k < p.act.size( ); ++k )
						if( p.act[k] != ps[p.given[k] ? 0 : 1].act[k] )
							obl = false;
			r.push_back( obl );
			if( obl )
				for( std::size_t k = 0; k < ps[0].act.size( ); ++k )
					for( Int v : { ps[0].pos[2 * k], ps[0].pos[2 * k + 1], ps[0].act[k], ps[1].act[k] } )
						r.push_back( v );
		} else
			vt::bad_op( o );
	}
};

struct Any {
	Base *w = nullptr;
	static inline std::string variant;
	Any( vt::Cfg const & ) {
#if GRP == 0
		if( variant == "int" )
			w = new World<int>;
		else
#endif
#if GRP == 1
		if( variant == "long" )
			w = new World<long long>;
		else
#endif
#if GRP == 2
		if( variant == "double" )
			w = new World<double>;
		else
#endif
#if GRP == 3
		if( variant == "string" )
			w = new World<std::string>;
		else
#endif
#if GRP == 4
		if( variant == "tracked" )
			w = new World<vt::Tracked<true>>;
		else
#endif
			vt::bad_variant( variant );
	}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
