// Calls of the parsing helpers (spec/Parse.tla). GRP selects the operations compiled in.
#include "trace.h"

#include <algorithm>
#include <cstdint>
#include <deque>
#include <list>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include <daw/daw_from_string.h>
#include <daw/daw_parse_args.h>
#include <daw/daw_parse_to.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>

using vt::Int;
using vt::Op;
using vt::Res;
using Text = std::vector<Int>;
namespace P = daw::parser;

static void rows( Int n, std::vector<Int> const &al, std::vector<Text> &out ) {
	std::vector<Text> prev{ Text{ } };
	out = prev;
	for( Int k = 0; k < n; ++k ) {
		std::vector<Text> next;
		for( auto const &q : prev )
			for( auto c : al ) {
				next.push_back( q );
				next.back( ).push_back( c );
			}
		out.insert( out.end( ), next.begin( ), next.end( ) );
		prev = std::move( next );
	}
}
// A text inside of a larger buffer: what surrounds it would satisfy most searches and would be a closing quote
struct Buf {
	std::string raw;
	std::size_t n;
	explicit Buf( Text const &t, char around )
	  : raw( 3, around )
	  , n( t.size( ) ) {
		for( auto c : t )
			raw.push_back( static_cast<char>( c ) );
		raw.append( 3, around );
	}
	char const *b( ) const { return raw.data( ) + 3; }
	char const *e( ) const { return b( ) + n; }
	daw::string_view sv( ) const { return daw::string_view( b( ), n ); }
	std::string str( ) const { return std::string( b( ), n ); }
};
template<typename F>
static void refuse( Res &r, F f ) {
	Res tmp;
	try {
		f( tmp );
	} catch( P::ParserException const & ) {
		tmp = { -1 };
	} catch( P::ParserOutOfRangeException const & ) {
		tmp = { -1 };
	} catch( P::parser_exception const & ) {
		tmp = { -1 };
	} catch( std::exception const & ) {
		tmp = { -5 };
	} catch( ... ) {
		tmp = { -1 };
	}
	r.insert( r.end( ), tmp.begin( ), tmp.end( ) );
}
template<typename S>
static void chars( Res &r, S const &s ) {
	for( auto c : s )
		r.push_back( static_cast<Int>( static_cast<std::make_unsigned_t<decltype( c )>>( c ) ) );
}
template<typename T>
static void number( Res &r, T v ) {
	chars( r, std::to_string( v ) );
}
static void quad( Res &r, Int q ) { r.push_back( q ); }

#if GRP == 0
// positions of a find result, which must agree with its other observers
template<typename R, typename It>
static void found( Res &r, R res, It b, bool judge = true ) {
	auto const a = static_cast<Int>( std::distance( b, res.first ) ), z = static_cast<Int>( std::distance( b, res.last ) );
	bool ok = res.begin( ) == res.first and res.end( ) == res.last and std::as_const( res ).begin( ) == res.first and std::as_const( res ).end( ) == res.last;
	ok = ok and static_cast<bool>( res ) == res.found and res.empty( ) == ( a == z ) and res.empty( false ) == ( a == z );
	bool threw = false;
	try {
		bool const e = res.empty( true );
		ok = ok and not e;
	} catch( P::ParserEmptyException const & ) { threw = true; }
	ok = ok and threw == ( a == z );
	auto const s = res.template as<std::string>( );
	ok = ok and s == std::string( res.first, res.last );
	if constexpr( std::is_pointer_v<It> ) {
		ok = ok and res.to_string( ) == s and res.to_string_view( ) == s and res.to_string_view( ).data( ) == res.first;
	}
	if( not ok )
		r.push_back( -99 );
	if( judge ) {
		r.push_back( a );
		r.push_back( z );
		r.push_back( res.found );
	} else if( a < z ) {
		r.push_back( a );
		r.push_back( z );
	} else {
		r.push_back( -7 );
	}
}
static bool dig( char c ) { return c >= '0' and c <= '9'; }
template<typename It>
static void range( Int k, Int p, It b, It e, daw::string_view sv, Res &r ) {
	char const ar[2] = { 'a', '1' };
	switch( k ) {
	case 1: return found( r, P::until( b, e, dig ), b );
	case 2: return refuse( r, [&]( Res &x ) { found( x, P::until( b, e, dig, p != 0 ), b ); } );
	case 3: return found( r, P::until_false( b, e, dig ), b );
	case 4:
		if( p == 1 ) return found( r, P::until_value( b, e, 'a' ), b );
		if( p == 2 ) return found( r, P::until_value( b, e, 'a', '1' ), b );
		return found( r, P::until_value( b, e, 'a', '1', ' ' ), b );
	case 5:
		if( p == 1 ) return found( r, P::until_values( b, e, std::string( "1a" ) ), b );
		if( p == 2 ) return found( r, P::until_values( b, e, daw::string_view( "a1" ) ), b );
		return found( r, P::until_values( b, e, ar ), b );
	case 6: {
		auto x = P::skip_ws( b, e );
		found( r, x, b, false );
		r.push_back( x.found );
		return;
	}
	case 7: return found( r, P::trim_left( b, e ), b, false );
	case 8: return found( r, P::trim_right( b, e ), b, false );
	case 9: return found( r, P::trim( b, e ), b, false );
	case 10:
		if( p == 0 ) return refuse( r, [&]( Res &x ) { found( x, P::from_to( b, e, 'a', '1' ), b ); } );
		return refuse( r, [&]( Res &x ) { found( x, P::from_to( b, e, 'a', '1', true ), b ); } );
	case 11: {
		auto isa = []( char c ) { return c == 'a'; };
		if( p == 0 ) return refuse( r, [&]( Res &x ) { found( x, P::from_to_pred( b, e, isa, dig ), b ); } );
		return refuse( r, [&]( Res &x ) { found( x, P::from_to_pred( b, e, isa, dig, true ), b ); } );
	}
	case 12: {
		auto v = p == 1 ? P::split_on( b, e, 'a' ) : p == 2 ? P::split_on( b, e, 'a', '1' ) : P::split_on( b, e, ' ', '1', 'a' );
		for( auto it : v )
			r.push_back( std::distance( b, it ) );
		return;
	}
	case 13:
		for( auto it : P::split_if( b, e, dig ) )
			r.push_back( std::distance( b, it ) );
		return;
	case 14:
		if( p == 0 ) return found( r, P::matcher( std::string( "a1" ) )( b, e ), b );
		return found( r, P::matcher( ar )( b, e ), b );
	case 15: {
		std::string const pre( "a1a", static_cast<std::size_t>( p ) );
		r.push_back( P::starts_with( b, e, pre.begin( ), pre.end( ), []( char x, char y ) { return x == y; } ) );
		return;
	}
	case 16: return found( r, P::until_last_of( b, e, 'a' ), b );
	case 17:
		return found( r, P::find_first_of_any( b, e, p == 1 ? std::string( "a" ) : p == 2 ? std::string( "1a" ) : std::string( "a1 " ) ), b );
	case 18: {
		P::is_crlf<char> one, m{ static_cast<std::size_t>( p ) };
		for( auto it = b; it != e; ++it ) {
			bool const x = m( *it ), y = one( *it );
			r.push_back( p == 1 and x != y ? -99 : x );
		}
		return;
	}
	case 19: return refuse( r, [&]( Res &x ) { found( x, P::find_number( b, e ), b ); } );
	case 20: return refuse( r, [&]( Res &x ) { found( x, P::parse_string_literal( b, e ), b ); } );
	case 26: return refuse( r, [&]( Res &x ) { P::assert_not_empty( b, e ); x = { 0 }; } );
	case 27: return refuse( r, [&]( Res &x ) { P::assert_empty( b, e ); x = { 0 }; } );
	default: break;
	}
	// views, of four character types
	auto views = [&]<typename C>( C ) {
		std::basic_string<C> big{ C( 'a' ) };
		for( char c : sv )
			big.push_back( static_cast<C>( c ) );
		big.push_back( C( 'a' ) );
		daw::basic_string_view<C> const v( big.data( ) + 1, sv.size( ) );
		auto in = [&]( auto t ) {
			if( t.size( ) != 0 and ( t.data( ) < v.data( ) or t.data( ) + t.size( ) > v.data( ) + v.size( ) ) )
				r.push_back( -99 );
			chars( r, t );
		};
		switch( k ) {
		case 21: r.push_back( P::find_first_of( v, C( 'a' ) ) - v.cbegin( ) ); return;
		case 22: r.push_back( P::find_first_of_when( v, []( C c ) { return c >= C( '0' ) and c <= C( '9' ); } ) - v.cbegin( ) ); return;
		case 23: return in( P::trim_left( v ) );
		case 24: return in( P::trim_right( v ) );
		case 25: return in( P::trim( v ) );
		default: std::abort( );
		}
	};
	switch( p ) {
	case 0: return views( char{ } );
	case 1: return views( char16_t{ } );
	case 2: return views( char32_t{ } );
	default: return views( wchar_t{ } );
	}
}
#endif

#if GRP == 1
template<typename C>
static bool cls( Int k, C c ) {
	using namespace P;
	char const ar[2] = { 'a', '1' };
	auto al = []( auto x ) { return is_alpha( x ); };
	auto nu = []( auto x ) { return is_number( x ); };
	auto sp = []( auto x ) { return x == C( ' ' ); };
	switch( k ) {
	case 1: return is_alpha( c );
	case 2: return is_number( c );
	case 3: return is_hex( c );
	case 4: return is_alphanumeric( c );
	case 5: return is_unicode_whitespace( c );
	case 6: return not_unicode_whitespace( c );
	case 7: return is_escape( c );
	case 8: return is_quote( c );
	case 9: return is_space( c );
	case 10: return not_space( c );
	case 11: return is_cr( c );
	case 12: return pred_true( c );
	case 13: return pred_false( c );
	case 14: return in( "a1" )( c );
	case 15: return value_in( c, std::string( "1a" ) );
	case 16: return value_in( c, ar );
	case 17: return one_of( 'a', '1', ' ' )( c );
	case 18: return is_a( c, 'a' );
	case 19: return is_a( c, 'a', '1', ' ' );
	case 20: return in_range( c, '2', 'd' );
	case 21: return P::negate( nu )( c );
	case 22: return is_a( c, ' ', 'a', '1' );
	case 23: return is_true( c, al );
	case 24: return is_true( c, al, nu );
	case 25: return is_true( c, sp, nu, al );
	case 26:
		if constexpr( std::is_same_v<C, char> )
			return char_in_t<'a', '1', ' '>{ }( c );
		else
			return in( "1 a" )( c );
	}
	std::abort( );
}
template<typename C>
static bool asrt( Int k, C c ) {
	using namespace P;
	auto al = []( auto x ) { return is_alpha( x ); };
	auto nu = []( auto x ) { return is_number( x ); };
	Res r;
	refuse( r, [&]( Res &x ) {
		switch( k ) {
		case 1: expect( c, 'a' ); break;
		case 2: expect( c, 'a', '1', ' ' ); break;
		case 3: expect_true( c, nu ); break;
		case 4: expect_true( c, al, nu ); break;
		case 5: assert_equal( c, C( 'a' ) ); break;
		default: assert_not_equal( c, C( 'a' ) ); break;
		}
		x = { 1 };
	} );
	return r[0] == 1;
}
#endif

template<typename F>
static void typ( Int w, Int sg, F f ) {
	switch( w * 2 + sg ) {
	case 16: return f( std::uint8_t{ } );
	case 17: return f( std::int8_t{ } );
	case 32: return f( std::uint16_t{ } );
	case 33: return f( std::int16_t{ } );
	case 64: return f( std::uint32_t{ } );
	case 65: return f( std::int32_t{ } );
	case 128: return f( std::uint64_t{ } );
	case 129: return f( std::int64_t{ } );
	}
	std::abort( );
}
#if GRP == 2 || GRP == 3
template<typename N>
static void num( Int how, Text const &t, Res &r ) {
	Buf const b( t, '7' );
	refuse( r, [&]( Res &x ) {
		switch( how ) {
		case 1: {
			N v = P::parse_unsigned_int<N>( b.b( ), b.e( ) ), w = 3;
			P::parse_unsigned_int( b.b( ), b.e( ), w );
			std::list<char> const l( b.b( ), b.e( ) );
			number( x, v == w and v == P::parse_unsigned_int<N>( l.begin( ), l.end( ) ) ? v : 77 );
			return;
		}
		case 2: number( x, P::parse_unsigned_int<N>( b.str( ).c_str( ) ) ); return;
		case 3: number( x, P::parse_unsigned_int<N>( b.sv( ) ) ); return;
		case 4: {
			N v = P::parse_int<N>( b.b( ), b.e( ) ), w = 3;
			P::parse_int( b.b( ), b.e( ), w );
			number( x, v == w ? v : 77 );
			return;
		}
		case 5: number( x, P::parse_int<N>( b.sv( ) ) ); return;
		case 6: {
			using daw::parser::converters::parse_to_value;
			number( x, parse_to_value( b.sv( ), daw::tag<N> ) );
			return;
		}
		default: {
			std::optional<N> v = daw::from_string( daw::tag<N>, b.sv( ) );
			if( v )
				number( x, *v );
			else
				x = { -1 };
		}
		}
	} );
}
#endif
#if GRP == 4
namespace pc = daw::parser::converters;
static void put( Res &r, std::int8_t v ) { number( r, v ); }
static void put( Res &r, std::uint8_t v ) { number( r, v ); }
static void put( Res &r, int v ) { number( r, v ); }
static void put( Res &r, char v ) { r.push_back( v ); }
static void put( Res &r, std::string const &v ) { chars( r, v ); }
static void put( Res &r, daw::string_view v ) { chars( r, v ); }
template<typename... V>
static void puts( Res &r, V const &...v ) {
	( ( put( r, v ), r.push_back( -8 ) ), ... );
}
struct X3 {
	int a, b, c;
};
struct X1 {
	int a;
};
// Ts: types that own their text, Vs: with views of it
template<typename... Ts>
struct Own {};
template<typename Sp, typename... Ts, typename... Vs>
static void fields( Int i, Int sp, Int via, Sp split, daw::string_view delim, Text const &t, Own<Ts...>, Own<Vs...>, Res &r ) {
	Buf const b( t, sp <= 2 ? ',' : ' ' );
	auto const s = b.sv( );
	refuse( r, [&]( Res &x ) {
		auto out = [&]( auto const &...v ) {
			puts( x, v... );
			return 5;
		};
		auto ret = [&]( int q ) {
			if( q != 5 )
				quad( x, -99 );
		};
		bool const str = sp == 1 or sp == 2 or sp == 5;
		switch( via ) {
		case 1: std::apply( out, P::parse_to<Vs...>( s, split ) ); return;
		case 2:
			if( sp == 5 )
				std::apply( out, P::parse_to<Ts...>( s ) );
			else if( str )
				std::apply( out, P::parse_to<Ts...>( s, delim ) );
			else
				std::apply( out, P::parse_to<Ts...>( s, Sp( split ) ) );
			return;
		case 3:
			if( str )
				ret( daw::apply_string<Vs...>( out, s, delim ) );
			else
				ret( daw::apply_string<Vs...>( out, s, split ) );
			return;
		case 4: {
			std::stringstream ss( b.str( ) );
			if( str )
				std::apply( out, daw::values_from_stream<Ts...>( ss, delim ) );
			else
				std::apply( out, daw::values_from_stream<Ts...>( ss, split ) );
			return;
		}
		case 7: {
			std::stringstream ss( b.str( ) );
			std::istream &is = ss;
			if( str )
				std::apply( out, daw::values_from_stream<Ts...>( is, delim ) );
			else
				std::apply( out, daw::values_from_stream<Ts...>( is, split ) );
			return;
		}
		case 5:
			if( i == 4 ) {
				X1 v = sp == 5 ? daw::construct_from<X1, int>( s ) : str ? daw::construct_from<X1, int>( s, delim ) : daw::construct_from<X1, int>( s, split );
				out( v.a );
			} else {
				X3 v = str ? daw::construct_from<X3, int, int, int>( s, delim ) : daw::construct_from<X3, int, int, int>( s, split );
				out( v.a, v.b, v.c );
			}
			return;
		default:
			if( i == 4 ) {
				auto f = [&]( int a ) { return out( a ); };
				if( sp == 5 )
					ret( daw::apply_string<int>( f, s ) );
				else if( str )
					ret( daw::apply_string2( f, s, delim ) );
				else
					ret( daw::apply_string2( f, s, split ) );
			} else {
				auto f = [&]( int a, int c, int d ) { return out( a, c, d ); };
				if( str )
					ret( daw::apply_string2( f, s, delim ) );
				else
					ret( daw::apply_string2( f, s, split ) );
			}
		}
	} );
}
template<typename Sp>
static void lists( Int i, Int sp, Int via, Sp split, daw::string_view d, Text const &t, Res &r ) {
	using u = pc::unquoted_string;
	using uv = pc::unquoted_string_view;
	switch( i ) {
	case 1: return fields( i, sp, via, split, d, t, Own<u, u, u>{ }, Own<uv, u, uv>{ }, r );
	case 2: return fields( i, sp, via, split, d, t, Own<std::int8_t, std::uint8_t>{ }, Own<std::int8_t, std::uint8_t>{ }, r );
	case 3: return fields( i, sp, via, split, d, t, Own<char, u>{ }, Own<char, uv>{ }, r );
	case 4: return fields( i, sp, via, split, d, t, Own<int>{ }, Own<int>{ }, r );
	case 5: return fields( i, sp, via, split, d, t, Own<std::string, int>{ }, Own<daw::string_view, int>{ }, r );
	default: return fields( i, sp, via, split, d, t, Own<int, int, int>{ }, Own<int, int, int>{ }, r );
	}
}
#endif

struct World {
	static inline std::string variant;
	explicit World( vt::Cfg const & ) {}

	void op( Op const &o, Res &r ) {
		std::vector<Text> ts;
		(void)ts;
#if GRP == 0
		if( o.is( "range" ) ) {
			rows( o.i( 3 ), o.l( 2 ), ts );
			for( auto const &t : ts ) {
				Buf const b( t, o.i( 0 ) == 20 ? '"' : '1' );
				Res x, y;
				range( o.i( 0 ), o.i( 1 ), b.b( ), b.e( ), b.sv( ), x );
				std::list<char> const l( b.b( ), b.e( ) );
				range( o.i( 0 ), o.i( 1 ), l.begin( ), l.end( ), b.sv( ), y );
				r.insert( r.end( ), x.begin( ), x.end( ) );
				if( x != y )
					r.push_back( -98 );
				r.push_back( -9 );
			}
			return;
		}
#elif GRP == 1
		auto per = [&]( auto f ) {
			for( auto c : o.l( 2 ) )
				switch( o.i( 1 ) ) {
				case 0: r.push_back( f( static_cast<char>( c ) ) ); break;
				case 1: r.push_back( f( static_cast<char16_t>( c ) ) ); break;
				case 2: r.push_back( f( static_cast<char32_t>( c ) ) ); break;
				default: r.push_back( f( static_cast<wchar_t>( c ) ) ); break;
				}
		};
		if( o.is( "class" ) )
			return per( [&]( auto c ) { return cls( o.i( 0 ), c ); } );
		if( o.is( "asrt" ) )
			return per( [&]( auto c ) { return asrt( o.i( 0 ), c ); } );
#elif GRP == 2 || GRP == 3
		if( o.is( "nums" ) )
			rows( o.i( 4 ), o.l( 3 ), ts );
		else if( o.is( "numl" ) )
			for( auto const &x : o.a.at( 3 ).v )
				ts.push_back( x.ints( ) );
		else
			vt::bad_op( o );
		return typ( o.i( 1 ), o.i( 2 ), [&]( auto z ) {
			for( auto const &t : ts ) {
				num<decltype( z )>( o.i( 0 ), t, r );
				r.push_back( -9 );
			}
		} );
#elif GRP == 4
		if( o.is( "fields" ) ) {
			rows( o.i( 4 ), o.l( 3 ), ts );
			for( auto const &t : ts ) {
				Int const i = o.i( 0 ), sp = o.i( 1 ), via = o.i( 2 );
				switch( sp ) {
				case 1: lists( i, sp, via, P::default_splitter{ "," }, ",", t, r ); break;
				case 2: lists( i, sp, via, P::default_splitter{ ",," }, ",,", t, r ); break;
				case 3: lists( i, sp, via, P::whitespace_splitter{ }, "", t, r ); break;
				case 4: lists( i, sp, via, P::single_whitespace_splitter{ }, "", t, r ); break;
				default: lists( i, sp, via, P::default_splitter{ " " }, " ", t, r ); break;
				}
				r.push_back( -9 );
			}
			return;
		}
#else
		auto mk = []( std::vector<std::string> const &as, auto f ) {
			std::vector<std::string> own{ "prog" };
			own.insert( own.end( ), as.begin( ), as.end( ) );
			std::vector<char *> v;
			for( auto &s : own )
				v.push_back( s.data( ) );
			v.push_back( nullptr );
			daw::Arguments a( static_cast<int>( own.size( ) ), v.data( ) );
			f( a );
		};
		auto txt = []( Text const &t ) {
			std::string s;
			for( auto c : t )
				s.push_back( static_cast<char>( c ) );
			return s;
		};
		if( o.is( "arg" ) ) {
			rows( o.i( 1 ), o.l( 0 ), ts );
			for( auto const &t : ts ) {
				mk( { txt( t ) }, [&]( daw::Arguments const &a ) {
					if( a.program_name( ) != "prog" or a.size( ) != 1 )
						r.push_back( -99 );
					chars( r, a[0].name );
					r.push_back( -8 );
					chars( r, a[0].value );
				} );
				r.push_back( -9 );
			}
			return;
		}
		if( o.is( "args" ) ) {
			std::vector<std::string> as;
			for( auto const &x : o.a.at( 0 ).v )
				as.push_back( txt( x.ints( ) ) );
			mk( as, [&]( daw::Arguments const &a ) {
				r.push_back( static_cast<Int>( a.size( ) ) );
				r.push_back( a.empty( ) );
				auto fn = a.first_named_argument( );
				r.push_back( fn ? static_cast<Int>( *fn ) : -1 );
				r.push_back( a.has_named_argument( ) );
				if( a.end( ) - a.begin( ) != static_cast<Int>( a.size( ) ) or a.cend( ) - a.cbegin( ) != static_cast<Int>( a.size( ) ) )
					r.push_back( -99 );
				for( std::string n : { "", "a", "b" } ) {
					auto p = a.find_argument_position( n );
					auto v = a[daw::string_view( n )];
					r.push_back( p ? static_cast<Int>( *p ) : -1 );
					if( v )
						chars( r, *v );
					else
						r.push_back( -6 );
					r.push_back( -8 );
				}
			} );
			return;
		}
		if( o.is( "quoted" ) ) {
			rows( o.i( 2 ), o.l( 1 ), ts );
			for( auto const &t : ts ) {
				Buf const b( t, '"' );
				refuse( r, [&]( Res &x ) {
					using daw::parser::converters::parse_to_value;
					if( o.i( 0 ) == 1 )
						chars( x, parse_to_value( b.sv( ), daw::tag<daw::string_view> ) );
					else
						chars( x, parse_to_value( b.sv( ), daw::tag<std::string> ) );
				} );
				r.push_back( -9 );
			}
			return;
		}
		if( o.is( "flt" ) ) {
			char const *const q[] = { "00", "25", "50", "75" };
			std::string const s = std::string( o.i( 2 ) ? "-" : "" ) + std::to_string( o.i( 1 ) / 4 ) + "." + q[o.i( 1 ) % 4];
			std::string const big = "9" + s + "9";
			daw::string_view const v( big.data( ) + 1, s.size( ) );
			using daw::parser::converters::parse_to_value;
			auto out = [&]( auto x ) { r.push_back( static_cast<Int>( x * 4 ) ); };
			switch( o.i( 0 ) ) {
			case 1: return out( parse_to_value( v, daw::tag<float> ) );
			case 2: return out( parse_to_value( v, daw::tag<double> ) );
			case 3: return out( parse_to_value( v, daw::tag<long double> ) );
			case 4: return out( daw::from_string( daw::tag<float>, v ).value( ) );
			case 5: return out( daw::from_string( daw::tag<double>, v ).value( ) );
			default: return out( daw::from_string( daw::tag<long double>, v ).value( ) );
			}
		}
		if( o.is( "str" ) ) {
			rows( o.i( 2 ), o.l( 1 ), ts );
			for( auto const &t : ts ) {
				Buf const b( t, 'a' );
				if( o.i( 0 ) == 1 )
					chars( r, daw::from_string( daw::tag<std::string>, b.sv( ) ).value( ) );
				else
					chars( r, daw::from_string( daw::tag<daw::string_view>, b.sv( ) ).value( ) );
				r.push_back( -9 );
			}
			return;
		}
#endif
		vt::bad_op( o );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
