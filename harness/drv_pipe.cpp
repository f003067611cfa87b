// Pipelines (spec/Pipe.tla): every stage, pairs and triples of stages, terminals. GRP selects what is compiled in.
#include "trace.h"

#include <array>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <optional>
#include <span>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include <daw/daw_contiguous_view.h>
#include <daw/daw_pipelines.h>

using namespace daw::pipelines;
using vt::Int;
using vt::Op;
using vt::Res;
using V = std::vector<int>;

struct Code {
	// the elements of a part as digits after a leading 1
	constexpr int operator( )( auto &&part ) const {
		int r = 1;
		for( auto const &v : part )
			r = r * 10 + ( static_cast<int>( v ) % 10 );
		return r;
	}
};

// not lambdas: the iterators hold the function, and a lambda with captures cannot be assigned
struct Less {
	int p;
	constexpr bool operator( )( int x ) const { return x < p; }
};
struct NotLess {
	int p;
	constexpr bool operator( )( int x ) const { return x >= p; }
};

static int const extra_data[] = { 7, 8, 9 };

template<int S>
auto stage( int p ) {
	auto const n = static_cast<std::size_t>( p );
	if constexpr( S == 1 ) return Map( []( int x ) { return 2 * x + 1; } );
	else if constexpr( S == 2 ) return Filter( []( int x ) { return x % 2 == 1; } );
	else if constexpr( S == 3 ) return Take( n );
	else if constexpr( S == 4 ) return Skip( n );
	else if constexpr( S == 5 ) return TakeWhile( Less{ p } );
	else if constexpr( S == 6 ) return TakeUntil( NotLess{ p } );
	else if constexpr( S == 7 ) return DropWhile( Less{ p } );
	else if constexpr( S == 8 ) return DropUntil( NotLess{ p } );
	else if constexpr( S == 9 ) return Reverse;
	else if constexpr( S == 10 ) return Every( n );
	else if constexpr( S == 11 ) return Clamp( 2, p + 1 );
	else if constexpr( S == 12 ) return Unique;
	else if constexpr( S == 13 ) return pipeline( Chunk( n ), Map( Code{ } ) );
	else if constexpr( S == 14 ) return pipeline( Slide( n ), Map( Code{ } ) );
	else if constexpr( S == 15 ) return pipeline( Chunk( n ), Flatten );
	else if constexpr( S == 16 ) return pipeline( Enumerate, MapApply( []( std::size_t i, int v ) { return static_cast<int>( i ) * 100 + v; } ) );
	else if constexpr( S == 17 ) return pipeline( ZipMore( daw::contiguous_view<int const>( extra_data, 3 ) ), MapApply( []( int a, int b ) { return a * 1000 + b; } ) );
	else if constexpr( S == 18 ) return pipeline( Split( int{ p } ), Map( Code{ } ) );
	else if constexpr( S == 19 ) return CacheLast;
	else if constexpr( S == 20 ) return pipeline( Swizzle<0, 0>, MapApply( []( int a, int b ) { return a * 3 + b; } ) );
	else if constexpr( S == 21 ) return pipeline( EnumerateFrom<unsigned>( static_cast<unsigned>( p ) ), Element<0>, Map( []( unsigned x ) { return static_cast<int>( x ); } ) );
	else if constexpr( S == 22 ) return pipeline( EnumerateWith<int>, Elements<1, 0>, MapApply( []( int a, int b ) { return a * 100 + b; } ) );
	else if constexpr( S == 23 ) return Map( []( int x ) { return x + 1; }, []( int x ) { return x * 3; } );
	else if constexpr( S == 24 ) return pipeline( Enumerate, Element<1> );
	else return pipeline( Split( []( int x ) { return x % 2 == 0; } ), Map( Code{ } ) );
}
inline constexpr int NStages = 25;

template<typename R>
void collect( R &&r, V &out, int &bad ) {
	for( auto &&v : r )
		out.push_back( static_cast<int>( v ) );
	auto const first = std::begin( r );
	auto const last = std::end( r );
	{
		V again;
		for( auto it = first; it != last; it++ )
			again.push_back( static_cast<int>( *it ) );
		if( again != out )
			bad |= 1;
	}
	if constexpr( std::is_same_v<decltype( first ), decltype( last )> ) {
		V again = pipeline( r, To<std::vector> );
		if( again != out )
			bad |= 2;
		if( static_cast<std::size_t>( std::distance( first, last ) ) != out.size( ) )
			bad |= 4;
	}
	using It = std::remove_const_t<decltype( first )>;
	if constexpr( daw::BidirectionalIterator<It> ) {
		V again;
		auto it = last;
		while( it != first ) {
			--it;
			again.insert( again.begin( ), static_cast<int>( *it ) );
		}
		if( again != out )
			bad |= 8;
	}
	if constexpr( daw::RandomIterator<It> ) {
		V again;
		V again2;
		if( static_cast<std::size_t>( last - first ) != out.size( ) )
			bad |= 16;
		else {
			for( std::size_t n = 0; n < out.size( ); ++n ) {
				auto const d = static_cast<std::ptrdiff_t>( n );
				auto it = first;
				it += d;
				again.push_back( static_cast<int>( *( first + d ) ) );
				again2.push_back( static_cast<int>( *it ) );
				if constexpr( requires { first[d]; } ) {
					if( static_cast<int>( first[d] ) != out[n] )
						bad |= 512;
				}
				if( first + d != last - ( static_cast<std::ptrdiff_t>( out.size( ) ) - d ) )
					bad |= 32;
			}
			if( again != out or again2 != out )
				bad |= 64;
		}
	}
}

void emit( Res &r, V const &out, int bad ) {
	for( int v : out )
		r.push_back( v );
	r.push_back( -1 );
	if( bad != 0 )
		r.push_back( -100 - bad );
}

template<int S, typename R>
inline constexpr bool legal = S != 9 or daw::BidirectionalIterator<daw::iterator_t<R>>;

template<int S, typename Src>
void run1( Src &&src, int p, V &out, int &bad ) {
	if constexpr( legal<S, Src> ) {
		collect( pipeline( src, stage<S>( p ) ), out, bad );
		auto const obj = pipeline( stage<S>( p ) );
		for( int k = 0; k < 2; ++k ) {
			V o2;
			for( auto &&v : obj( src ) )
				o2.push_back( static_cast<int>( v ) );
			if( o2 != out )
				bad |= 128;
		}
	} else
		std::abort( );
}
template<int S, int T, typename Src>
void run2( Src &&src, int p, int q, V &out, int &bad ) {
	if constexpr( legal<S, Src> ) {
		if constexpr( legal<T, decltype( stage<S>( p )( src ) )> )
			collect( pipeline( src, stage<S>( p ), stage<T>( q ) ), out, bad );
		else
			std::abort( );
	} else
		std::abort( );
}
template<int S, int T, int U, typename Src>
void run3( Src &&src, int p, int q, int w, V &out, int &bad ) {
	if constexpr( legal<S, Src> ) {
		if constexpr( legal<T, decltype( stage<S>( p )( src ) )> ) {
			auto two = pipeline( stage<S>( p ), stage<T>( q ) );
			if constexpr( legal<U, decltype( two( src ) )> )
				collect( pipeline( src, two, stage<U>( w ) ), out, bad );
			else
				std::abort( );
		} else
			std::abort( );
	} else
		std::abort( );
}

template<typename F>
void with_source( Int kind, V &data, F f ) {
	if( kind == 0 )
		f( data );
	else if( kind == 1 ) {
		std::list<int> l( data.begin( ), data.end( ) );
		f( l );
	} else if( kind == 2 ) {
		std::forward_list<int> l( data.begin( ), data.end( ) );
		f( l );
	} else {
		std::span<int const> s( data );
		f( s );
	}
}

// all sequences over 1..a of length 0..n, shorter ones first, the last element varying fastest
template<typename F>
void rows( int n, int a, F f ) {
	for( int len = 0; len <= n; ++len ) {
		V v( static_cast<std::size_t>( len ), 1 );
		for( ;; ) {
			V c = v;
			f( c );
			int i = len - 1;
			while( i >= 0 and v[static_cast<std::size_t>( i )] == a )
				v[static_cast<std::size_t>( i-- )] = 1;
			if( i < 0 )
				break;
			++v[static_cast<std::size_t>( i )];
		}
	}
}

template<typename F, std::size_t... Is>
void pick_impl( Int s, F f, std::index_sequence<Is...> ) {
	bool done = ( ( s == static_cast<Int>( Is + 1 ) ? ( f( std::integral_constant<int, static_cast<int>( Is ) + 1>{ } ), true ) : false ) or ... );
	if( not done )
		std::abort( );
}
template<typename F>
void pick( Int s, F f ) {
	pick_impl( s, f, std::make_index_sequence<NStages>{ } );
}
template<int... Ss, typename F>
void pick_of( Int s, std::integer_sequence<int, Ss...>, F f ) {
	bool done = ( ( s == Ss ? ( f( std::integral_constant<int, Ss>{ } ), true ) : false ) or ... );
	if( not done )
		std::abort( );
}

#if GRP == 9
struct Mod3 {
	int operator( )( int x ) const { return x % 3; }
};
inline constexpr Mod3 mod3{ };
struct Equal2 {
	bool operator( )( int a, int b ) const { return a == b; }
};
struct Sum3 {
	int t;
	bool operator( )( int a, int b, int c ) const { return a + b + c == t; }
};
struct Seq {
	int *n;
	int operator( )( ) const { return ++*n; }
};
template<typename R>
void put( V &out, R const &r ) {
	for( auto const &v : r )
		out.push_back( static_cast<int>( v ) );
}

// what ends a pipeline, and what starts one
void terminal( Int k, int p, V &data, V &out, int &bad ) {
	std::list<int> const l( data.begin( ), data.end( ) );
	V const cdata = data;
	auto const pos = [&]( auto &r, auto it ) { out.push_back( static_cast<int>( std::distance( std::begin( r ), it ) ) ); };
	auto const opt = [&]( auto const &o ) { out.push_back( o ? static_cast<int>( *o ) : -2 ); };
	switch( k ) {
	case 1: put( out, pipeline( data, To<std::vector>( ) ) ); put( out, pipeline( l, To<std::vector>( ) ) ); break;
	case 2: put( out, pipeline( data, To<std::list<int>>( ) ) ); put( out, To<std::vector<long>>( )( l ) ); break;
	case 3: put( out, pipeline( data, To<std::array<int, 3>>( ) ) ); break;
	case 4: put( out, pipeline( l, To<std::array<int, 3>, 9>( ) ) ); break;
	case 5: out.push_back( pipeline( data, Sum ) ); out.push_back( Sum( l ) ); break;
	case 6: out.push_back( static_cast<int>( pipeline( data, Count ) ) ); out.push_back( static_cast<int>( Count( l ) ) ); break;
	case 7: out.push_back( static_cast<int>( pipeline( data, Filter( Less{ p } ), Count ) ) ); break;
	case 8: out.push_back( static_cast<int>( pipeline( data, CountIf( Less{ p } ) ) ) ); out.push_back( static_cast<int>( CountIf( NotLess{ p } )( l ) ) ); break;
	case 9: out.push_back( pipeline( data, Contains( int{ p } ) ) ); out.push_back( Contains( int{ p } )( l ) ); break;
	case 10: out.push_back( pipeline( data, Contains( int{ p }, std::less<>{ } ) ) ); break;
	case 11: out.push_back( pipeline( data, Contains( int{ p }, std::equal_to<>{ }, mod3 ) ) ); break;
	case 12: pos( data, pipeline( data, Find( int{ p } ) ) ); pos( l, Find( l, int{ p } ) ); break;
	case 13: pos( data, pipeline( data, Find( int{ p }, mod3 ) ) ); break;
	case 14: pos( data, pipeline( data, FindIf( NotLess{ p } ) ) ); pos( l, FindIf( l, NotLess{ p } ) ); break;
	case 15: pos( data, pipeline( data, FindIf<2>( Equal2{ } ) ) ); pos( l, pipeline( l, FindIf<2>( Equal2{ } ) ) ); break;
	case 16: pos( data, pipeline( data, FindIf<3>( Sum3{ p + 3 } ) ) ); pos( l, FindIf<3>( l, Sum3{ p + 3 } ) ); break;
	case 17: opt( pipeline( data, First( ) ) ); opt( pipeline( l, Filter( NotLess{ p } ), First( ) ) ); break;
	case 18: {
		auto f = pipeline( data, FirstRef( ) );
		out.push_back( f ? static_cast<int>( &f->get( ) - data.data( ) ) : -2 );
		opt( pipeline( data, Map( []( int x ) { return x + 1; } ), FirstRef( ) ) );
		break;
	}
	case 19: pos( data, pipeline( data, Max ) ); pos( l, Max( l ) ); break;
	case 20: pos( data, pipeline( data, Max( std::greater<>{ } ) ) ); break;
	case 21: pos( data, pipeline( data, Max( std::less<>{ }, mod3 ) ) ); break;
	case 22: pos( data, pipeline( data, Min ) ); pos( l, Min( l ) ); break;
	case 23: pos( data, pipeline( data, Min( std::less<>{ }, mod3 ) ) ); break;
	case 24: {
		auto [a, b] = pipeline( data, MinMax );
		pos( data, a );
		pos( data, b );
		auto [c, d] = pipeline( data, MinMax( std::greater<>{ }, mod3 ) );
		pos( data, c );
		pos( data, d );
		break;
	}
	case 25: {
		V d = data;
		auto const &x = pipeline( d, Sort );
		put( out, x );
		put( out, d );
		break;
	}
	case 26: put( out, pipeline( data, Copy( ), Sort( std::greater<>{ } ) ) ); break;
	case 27: put( out, pipeline( data, Copy( ), Sort, Filter( NotLess{ p } ), To<std::vector>( ) ) ); break;
	case 28: {
		V seen;
		put( out, pipeline( data, ForEach( [&]( int x ) { seen.push_back( x ); } ) ) );
		put( out, seen );
		break;
	}
	case 29: {
		V seen;
		(void)pipeline( zip_view( data, l ), ForEachApply( [&]( int a, int b ) { seen.push_back( a * 10 + b ); } ) );
		put( out, seen );
		break;
	}
	case 30: {
		// element x becomes x - 1 times x
		std::vector<V> nested;
		for( int x : data )
			nested.push_back( V( static_cast<std::size_t>( x - 1 ), x ) );
		collect( pipeline( nested, Flatten ), out, bad );
		V o2;
		std::list<std::list<int>> nl;
		for( auto const &v : nested )
			nl.emplace_back( v.begin( ), v.end( ) );
		collect( pipeline( nl, Flatten ), o2, bad );
		if( o2 != out )
			bad |= 256;
		break;
	}
	case 31: {
		V const ext( extra_data, extra_data + 3 );
		V const mid( static_cast<std::size_t>( p - 1 ), 5 );
		collect( pipeline( zip_view( data, mid, ext ), Concat ), out, bad );
		break;
	}
	case 32: {
		V const ext( extra_data, extra_data + 3 );
		V o2;
		auto const f = []( int a, int b ) { return a * 10 + b; };
		collect( pipeline( zip_view( data, ext ), MapApply( f ) ), out, bad );
		collect( pipeline( zip_view( ext, data ), Reverse, MapApply( f ) ), o2, bad );
		put( out, o2 );
		break;
	}
	case 33: {
		V const ext( extra_data, extra_data + 3 );
		collect( pipeline( data, Split( V{ 1, 2 } ), Map( Code{ } ) ), out, bad );
		break;
	}
	case 34: {
		int n = 0;
		put( out, pipeline( generate_n( data.size( ), Seq{ &n } ), To<std::vector>( ) ) );
		break;
	}
	case 35: {
		int const n = static_cast<int>( data.size( ) );
		collect( iota_view<int>( -p, n - p ), out, bad );
		V o2;
		collect( ToIota( n ), o2, bad );
		put( out, o2 );
		break;
	}
	case 36:
		for( int x : data ) {
			out.push_back( Map( []( int y ) { return y + 5; } )( x ) );
			opt( Filter( Less{ p } )( x ) );
			out.push_back( Clamp( 2, p + 1 )( x ) );
			out.push_back( static_cast<int>( Count( x ) ) );
			put( out, To<std::vector>( )( x ) );
		}
		break;
	case 37: {
		auto const big = std::numeric_limits<std::size_t>::max( ) - static_cast<std::size_t>( p - 1 );
		collect( pipeline( data, Take( big ) ), out, bad );
		V o2;
		collect( pipeline( data, Skip( big ) ), o2, bad );
		put( out, o2 );
		collect( pipeline( l, Take( big ) ), o2, bad );
		put( out, o2 );
		V o3;
		collect( pipeline( l, Skip( big ) ), o3, bad );
		put( out, o3 );
		break;
	}
	case 38: collect( pipeline( data, Filter( Not( IsOneOf<1, 3> ) ) ), out, bad ); break;
	case 39: {
		// 1 a number, 2 a large one, 3 the large one negated: exact in the compensated sum
		std::vector<double> d;
		for( int x : data )
			d.push_back( x == 1 ? 1.0 : x == 2 ? 1e16 : -1e16 );
		auto const total = pipeline( d, SumKahanBabushkaNeumaier );
		long ones = 0;
		long bigs = 0;
		for( int x : data ) {
			ones += x == 1;
			bigs += x == 2;
			bigs -= x == 3;
		}
		double const want = static_cast<double>( bigs * 10000000000000000L + ones );
		out.push_back( total == want );
		break;
	}
	case 40: {
		auto const square = pipeline( Map( []( int x ) { return x * x; } ), Filter( NotLess{ p } ) );
		auto const both = pipeline( square, To<std::vector>( ) );
		put( out, both( cdata ) );
		put( out, both( l ) );
		put( out, pipeline( cdata, both ) );
		break;
	}
	default: std::abort( );
	}
}
#endif

struct World {
	static inline std::string variant;
	explicit World( vt::Cfg const & ) {}

	void op( Op const &o, Res &r ) {
#if GRP == 0
		if( o.is( "one" ) ) {
			// source kind, stage, parameter, length, alphabet
			rows( static_cast<int>( o.i( 3 ) ), static_cast<int>( o.i( 4 ) ), [&]( V &data ) {
				V out;
				int bad = 0;
				V const before = data;
				with_source( o.i( 0 ), data, [&]( auto &src ) {
					pick( o.i( 1 ), [&]( auto s ) { run1<decltype( s )::value>( src, static_cast<int>( o.i( 2 ) ), out, bad ); } );
				} );
				if( before != data )
					bad |= 1024;
				emit( r, out, bad );
			} );
		} else
#elif GRP >= 1 and GRP <= 5
		if( o.is( "two" ) ) {
			rows( static_cast<int>( o.i( 4 ) ), static_cast<int>( o.i( 5 ) ), [&]( V &data ) {
				V out;
				int bad = 0;
				pick_of( o.i( 0 ), std::integer_sequence<int, GRP, GRP + 5, GRP + 10, GRP + 15, GRP + 20>{ }, [&]( auto s ) {
					pick( o.i( 1 ), [&]( auto t ) { run2<decltype( s )::value, decltype( t )::value>( data, static_cast<int>( o.i( 2 ) ), static_cast<int>( o.i( 3 ) ), out, bad ); } );
				} );
				emit( r, out, bad );
			} );
		} else
#elif GRP >= 6 and GRP <= 8
		if( o.is( "three" ) ) {
			// stages, parameters, length, alphabet
			using Core = std::integer_sequence<int, 2, 4, 5, 9, 12, 13, 16, 18, 24>;
			using Firsts = std::conditional_t<GRP == 6, std::integer_sequence<int, 2, 4, 5>, std::conditional_t<GRP == 7, std::integer_sequence<int, 9, 12, 13>, std::integer_sequence<int, 16, 18, 24>>>;
			rows( static_cast<int>( o.i( 6 ) ), static_cast<int>( o.i( 7 ) ), [&]( V &data ) {
				V out;
				int bad = 0;
				pick_of( o.i( 0 ), Firsts{ }, [&]( auto s ) {
					pick_of( o.i( 1 ), Core{ }, [&]( auto t ) {
						pick_of( o.i( 2 ), Core{ }, [&]( auto u ) {
							run3<decltype( s )::value, decltype( t )::value, decltype( u )::value>( data, static_cast<int>( o.i( 3 ) ), static_cast<int>( o.i( 4 ) ), static_cast<int>( o.i( 5 ) ), out, bad );
						} );
					} );
				} );
				emit( r, out, bad );
			} );
		} else
#elif GRP == 9
		if( o.is( "term" ) ) {
			rows( static_cast<int>( o.i( 2 ) ), static_cast<int>( o.i( 3 ) ), [&]( V &data ) {
				V out;
				int bad = 0;
				V const before = data;
				terminal( o.i( 0 ), static_cast<int>( o.i( 1 ) ), data, out, bad );
				if( before != data )
					bad |= 1024;
				emit( r, out, bad );
			} );
		} else
#endif
			vt::bad_op( o );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
