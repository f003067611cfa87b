// Calls of the integer, bit and floating point field helpers (spec/Num.tla). GRP selects the operations compiled in.
#include "trace.h"

#include <bit>
#include <bitset>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>
#include <vector>

#include <daw/daw_bit.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_cxmath.h>
#include <daw/daw_endian.h>
#include <daw/daw_int_cmp.h>
#include <daw/daw_integer_reverse.h>
#include <daw/daw_math.h>
#include <daw/daw_natural.h>
#include <daw/daw_uint_buffer.h>
#include <daw/daw_uint_types.h>

using vt::Int;
using vt::Op;
using vt::Res;
using Bs = std::vector<Int>;

template<typename T>
T ld( Bs const &b, std::size_t off = 0 ) {
	unsigned char raw[sizeof( T )];
	for( std::size_t i = 0; i < sizeof( T ); ++i )
		raw[i] = static_cast<unsigned char>( b.at( off + i ) );
	T r;
	std::memcpy( &r, raw, sizeof( T ) );
	return r;
}
template<typename T>
void put( Res &r, T const &v ) {
	unsigned char raw[sizeof( T )];
	std::memcpy( raw, &v, sizeof( T ) );
	for( auto c : raw )
		r.push_back( c );
}
template<typename F>
void typ( Int w, Int sg, F f ) {
	switch( w * 2 + sg ) {
	case 16: return f( std::uint8_t{ } );
	case 17: return f( std::int8_t{ } );
	case 32: return f( std::uint16_t{ } );
	case 33: return f( std::int16_t{ } );
	case 64: return f( std::uint32_t{ } );
	case 65: return f( std::int32_t{ } );
	case 128: return f( std::uint64_t{ } );
	case 129: return f( std::int64_t{ } );
	}
	std::abort( );
}
template<typename F>
void wide( Int w, Int sg, F f ) { // 32 and 64 only
	switch( w * 2 + sg ) {
	case 64: return f( std::uint32_t{ } );
	case 65: return f( std::int32_t{ } );
	case 128: return f( std::uint64_t{ } );
	case 129: return f( std::int64_t{ } );
	}
	std::abort( );
}

#if GRP == 0
template<int Lib, typename T, typename U>
Int masks( T a, U b ) {
	if constexpr( Lib == 0 ) {
		return daw::cmp_equal( a, b ) + 2 * daw::cmp_not_equal( a, b ) + 4 * daw::cmp_less( a, b ) + 8 * daw::cmp_greater( a, b ) +
		       16 * daw::cmp_less_equal( a, b ) + 32 * daw::cmp_greater_equal( a, b );
	} else {
		namespace cx = daw::cxmath;
		return cx::cmp_equal( a, b ) + 2 * cx::cmp_not_equal( a, b ) + 4 * cx::cmp_less( a, b ) + 8 * cx::cmp_greater( a, b ) +
		       16 * cx::cmp_less_equal( a, b ) + 32 * cx::cmp_greater_equal( a, b );
	}
}
template<typename T, typename U>
Int mask( Int lib, T a, U b ) {
	return lib == 0 ? masks<0>( a, b ) : masks<1>( a, b );
}
#endif

#if GRP == 1
template<unsigned W, int Raw>
struct UT {
	using S = std::conditional_t<W == 8, std::uint8_t, std::conditional_t<W == 16, std::uint16_t, std::conditional_t<W == 32, std::uint32_t, std::uint64_t>>>;
	using type = std::conditional_t<Raw == 1, S, daw::UInt<W>>;
};
template<int Raw, typename F>
void uw( Int w, F f ) {
	switch( w ) {
	case 8: return f( typename UT<8, Raw>::type{ } );
	case 16: return f( typename UT<16, Raw>::type{ } );
	case 32: return f( typename UT<32, Raw>::type{ } );
	case 64: return f( typename UT<64, Raw>::type{ } );
	}
	std::abort( );
}
template<typename F>
void ut( Int w, Int raw, F f ) {
	if( raw == 1 )
		uw<1>( w, f );
	else
		uw<0>( w, f );
}
template<typename T>
void putres( Res &r, T v, bool head ) {
	if constexpr( std::is_same_v<T, bool> ) {
		if( head )
			r.push_back( 1 );
		r.push_back( v );
	} else {
		if( head )
			r.push_back( static_cast<Int>( sizeof( T ) * 8 ) );
		put( r, v );
	}
}
// runs f( a, b ) for each b when the operator exists
#define BIN( NAME, EXPR )                                                                    \
	if( o == NAME ) {                                                                          \
		if constexpr( requires( A a, B b ) { EXPR; } ) {                                         \
			bool head = true;                                                                      \
			for( std::size_t p = 0; p + sizeof( B ) <= bs.size( ); p += sizeof( B ) ) {            \
				A a = a0;                                                                            \
				B b = ld<B>( bs, p );                                                                \
				putres( r, EXPR, head );                                                             \
				head = false;                                                                        \
			}                                                                                      \
		} else {                                                                                 \
			r.push_back( -1 );                                                                     \
		}                                                                                        \
		return;                                                                                  \
	}
#define ASG( NAME, EXPR )                                                                    \
	if( o == NAME ) {                                                                          \
		if constexpr( not std::is_integral_v<A> and requires( A & a, B b ) { EXPR; } ) {         \
			bool head = true;                                                                      \
			for( std::size_t p = 0; p + sizeof( B ) <= bs.size( ); p += sizeof( B ) ) {            \
				A a = a0;                                                                            \
				B b = ld<B>( bs, p );                                                                \
				auto &q = ( EXPR );                                                                  \
				if( static_cast<void const *>( &q ) != &a )                                          \
					r.push_back( -7 );                                                                 \
				putres( r, a, head );                                                                \
				head = false;                                                                        \
			}                                                                                      \
		} else {                                                                                 \
			r.push_back( -1 );                                                                     \
		}                                                                                        \
		return;                                                                                  \
	}
template<typename A, typename B>
void bin( std::string const &o, A a0, Bs const &bs, Res &r ) {
	if constexpr( not( std::is_integral_v<A> and std::is_integral_v<B> ) ) {
		BIN( "+", a + b )
		BIN( "-", a - b )
		BIN( "*", a *b )
		BIN( "/", a / b )
		BIN( "&", a & b )
		BIN( "|", a | b )
		BIN( "^", a ^ b )
		BIN( "==", a == b )
		BIN( "!=", a != b )
		BIN( "<", a < b )
		BIN( ">", a > b )
		BIN( "<=", a <= b )
		BIN( ">=", a >= b )
		ASG( "+=", a += b )
		ASG( "-=", a -= b )
		ASG( "*=", a *= b )
		ASG( "/=", a /= b )
		ASG( "&=", a &= b )
		ASG( "|=", a |= b )
		ASG( "^=", a ^= b )
	}
	std::abort( );
}
template<typename A, typename B>
void shf( std::string const &o, A a0, B b0, Res &r ) {
	Bs bs;
	put( bs, b0 );
	BIN( "<<", a << b )
	BIN( ">>", a >> b )
	ASG( "<<=", a <<= b )
	ASG( ">>=", a >>= b )
	std::abort( );
}
template<typename T, std::size_t... I>
T rotT( bool left, T v, std::size_t n, std::index_sequence<I...> ) {
	T r{ };
	( ( I == n ? void( r = left ? daw::rotate_left<static_cast<unsigned>( I )>( v ) : daw::rotate_right<static_cast<unsigned>( I )>( v ) ) : void( ) ), ... );
	return r;
}
#endif

#if GRP == 2
using Bad = daw::invalid_natural_number;
template<typename T, typename U>
Int nat2( std::string const &o, Int av, Int bv ) {
	using N = daw::natural_t<T>;
	using M = daw::natural_t<U>;
	N a = static_cast<T>( av );
	M const b = static_cast<U>( bv );
	if( o == "cmp" )
		return ( a == b ) + 2 * ( a != b ) + 4 * ( a < b ) + 8 * ( a > b ) + 16 * ( a <= b ) + 32 * ( a >= b );
	try {
		if( o == "+" ) return static_cast<Int>( ( a + b ).value( ) );
		if( o == "-" ) return static_cast<Int>( ( a - b ).value( ) );
		if( o == "*" ) return static_cast<Int>( ( a * b ).value( ) );
		if( o == "/" ) return static_cast<Int>( ( a / b ).value( ) );
		if( o == "%" ) return static_cast<Int>( ( a % b ).value( ) );
		N *p = nullptr;
		if( o == "+=" ) p = &( a += b );
		else if( o == "-=" ) p = &( a -= b );
		else if( o == "*=" ) p = &( a *= b );
		else if( o == "/=" ) p = &( a /= b );
		else if( o == "%=" ) p = &( a %= b );
		return p == &a ? static_cast<Int>( a.value( ) ) : -8;
	} catch( Bad const & ) {
		// nothing may have changed
		return static_cast<Int>( a.value( ) ) == av ? -1 : -9;
	}
}
#endif

#if GRP == 3
template<std::size_t... I>
Int pow10v( std::size_t n, std::index_sequence<I...> ) {
	std::uintmax_t r = 0;
	( ( I == n ? void( r = daw::cxmath::pow10_v<I> ) : void( ) ), ... );
	return static_cast<Int>( r );
}
template<std::size_t N>
void bset( Int how, std::vector<Int> const &p, Res &r ) {
	std::bitset<N> b;
	if( how == 0 ) {
		b = daw::create_bitset_from_set_positions<N>( p );
	} else if( how == 1 ) {
		switch( p.size( ) ) {
		case 0: b = daw::create_bitset_from_set_positions<N>( std::initializer_list<int>{ } ); break;
		case 1: b = daw::create_bitset_from_set_positions<N>( { static_cast<unsigned>( p[0] ) } ); break;
		case 2: b = daw::create_bitset_from_set_positions<N>( { p[0], p[1] } ); break;
		default: b = daw::create_bitset_from_set_positions<N>( { p[0], p[1], p[2] } ); break;
		}
	} else {
		switch( p.size( ) ) {
		case 0: b = daw::create_bitset_from_set_positions<N>( ); break;
		case 1: b = daw::create_bitset_from_set_positions<N>( p[0] ); break;
		case 2: b = daw::create_bitset_from_set_positions<N>( p[0], static_cast<unsigned char>( p[1] ) ); break;
		default: b = daw::create_bitset_from_set_positions<N>( static_cast<unsigned>( p[0] ), p[1], p[2] ); break;
		}
	}
	for( std::size_t i = 0; i < N; ++i )
		r.push_back( b.test( i ) );
}
#endif

#if GRP == 4
template<typename F>
void flt( Int f, F g ) {
	if( f == 32 )
		g( float{ } );
	else
		g( double{ } );
}
#endif

struct World {
	static inline std::string variant;
	explicit World( vt::Cfg const & ) {}
	void op( Op const &o, Res &r ) {
#if GRP == 0
		if( o.is( "cmprow" ) ) {
			typ( 8, o.i( 1 ), [&]( auto a0 ) {
				typ( 8, o.i( 2 ), [&]( auto b0 ) {
					for( int j = 0; j < 256; ++j )
						r.push_back( mask( o.i( 0 ), static_cast<decltype( a0 )>( o.i( 3 ) ), static_cast<decltype( b0 )>( j ) ) );
				} );
			} );
		} else if( o.is( "cmp" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto a0 ) {
				typ( o.i( 4 ), o.i( 5 ), [&]( auto b0 ) {
					auto const a = ld<decltype( a0 )>( o.l( 3 ) );
					auto const bs = o.l( 6 );
					for( std::size_t p = 0; p < bs.size( ); p += sizeof( b0 ) )
						r.push_back( mask( o.i( 0 ), a, ld<decltype( b0 )>( bs, p ) ) );
				} );
			} );
		} else if( o.is( "inr" ) ) {
			typ( o.i( 0 ), o.i( 1 ), [&]( auto t0 ) {
				typ( o.i( 2 ), o.i( 3 ), [&]( auto b0 ) {
					auto const bs = o.l( 4 );
					for( std::size_t p = 0; p < bs.size( ); p += sizeof( b0 ) )
						r.push_back( daw::in_range<decltype( t0 )>( ld<decltype( b0 )>( bs, p ) ) );
				} );
			} );
		} else if( o.is( "sgn" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto b0 ) {
				auto const bs = o.l( 3 );
				for( std::size_t p = 0; p < bs.size( ); p += sizeof( b0 ) ) {
					auto const v = ld<decltype( b0 )>( bs, p );
					r.push_back( o.i( 0 ) == 0 ? daw::signbit( v ) : daw::cxmath::signbit( v ) );
				}
			} );
		} else
#endif
#if GRP == 1
		  if( o.is( "u2" ) ) {
			ut( o.i( 1 ), o.i( 2 ), [&]( auto a0 ) {
				ut( o.i( 3 ), o.i( 4 ), [&]( auto b0 ) { bin<decltype( a0 ), decltype( b0 )>( o.s( 0 ), ld<decltype( a0 )>( o.l( 5 ) ), o.l( 6 ), r ); } );
			} );
		} else if( o.is( "u2row" ) ) {
			Bs bs;
			bool const div = o.s( 0 )[0] == '/';
			for( int j = div; j < 256; ++j )
				bs.push_back( j );
			Res t;
			bin<daw::UInt8, daw::UInt8>( o.s( 0 ), static_cast<daw::UInt8>( o.i( 1 ) ), bs, t );
			if( div )
				r.push_back( 0 );
			for( std::size_t j = 1; j < t.size( ); ++j )
				r.push_back( t[j] );
		} else if( o.is( "usub" ) ) {
			uw<0>( o.i( 1 ), [&]( auto a0 ) {
				ut( o.i( 2 ), o.i( 3 ), [&]( auto b0 ) { shf( o.s( 0 ), ld<decltype( a0 )>( o.l( 4 ) ), static_cast<decltype( b0 )>( o.i( 5 ) ), r ); } );
			} );
		} else if( o.is( "u1" ) ) {
			uw<0>( o.i( 1 ), [&]( auto a0 ) {
				auto a = ld<decltype( a0 )>( o.l( 2 ) );
				auto const &s = o.s( 0 );
				if( s == "~" ) put( r, ~a );
				else if( s == "-" ) put( r, -a );
				else if( s == "+" ) put( r, +a );
				else if( s == "!" ) r.push_back( !a );
				else if( s == "++" ) { auto x = ++a; put( r, x ); put( r, a ); }
				else if( s == "--" ) { auto x = --a; put( r, x ); put( r, a ); }
				else if( s == "p++" ) { auto x = a++; put( r, x ); put( r, a ); }
				else if( s == "p--" ) { auto x = a--; put( r, x ); put( r, a ); }
			} );
		} else if( o.is( "urot" ) ) {
			uw<0>( o.i( 1 ), [&]( auto a0 ) {
				auto a = ld<decltype( a0 )>( o.l( 2 ) );
				auto const &s = o.s( 0 );
				auto const n = static_cast<unsigned>( o.i( 3 ) );
				if( s == "rotl" ) put( r, daw::rotate_left( a, n ) );
				else if( s == "rotr" ) put( r, daw::rotate_right( a, n ) );
				else put( r, rotT( s == "rotlT", a, n, std::make_index_sequence<sizeof( a ) * 8 + 1>{ } ) );
			} );
		} else if( o.is( "ubuf" ) ) {
			char c[8];
			unsigned char u[8];
			auto const l = o.l( 1 );
			for( std::size_t i = 0; i < 8; ++i ) {
				c[i] = static_cast<char>( l[i] );
				u[i] = static_cast<unsigned char>( l[i] );
			}
			if( o.i( 0 ) == 64 ) put( r, daw::to_uint64_buffer( c ) == daw::to_uint64_buffer( u ) ? daw::to_uint64_buffer( c ) : daw::UInt64{ } );
			else if( o.i( 0 ) == 32 ) put( r, daw::to_uint32_buffer( c ) == daw::to_uint32_buffer( u ) ? daw::to_uint32_buffer( c ) : daw::UInt32{ } );
			else put( r, daw::to_uint16_buffer( c ) == daw::to_uint16_buffer( u ) ? daw::to_uint16_buffer( c ) : daw::UInt16{ } );
		} else if( o.is( "ulit" ) ) {
			using namespace daw;
			put( r, 255_u8 );
			put( r, 0_u8 );
			put( r, 0xFFFF_u16 );
			put( r, 0_u16 );
			put( r, 0xFFFF'FFFF_u32 );
			put( r, 0_u8 );
			put( r, 0xFFFF'FFFF'FFFF'FFFF_u64 );
			put( r, 0_u8 );
		} else if( o.is( "umask" ) ) {
			switch( o.i( 0 ) ) {
#define M( W )                                  \
	case W:                                       \
		put( r, daw::mask_from_lsb##W<0> );         \
		put( r, daw::mask_from_lsb##W<1> );         \
		put( r, daw::mask_from_lsb##W<5> );         \
		put( r, daw::mask_from_lsb##W<W - 1> );     \
		put( r, daw::mask_from_lsb##W<W> );         \
		break;
				M( 8 ) M( 16 ) M( 32 ) M( 64 )
#undef M
			}
		} else
#endif
#if GRP == 2
		  if( o.is( "nat" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto a0 ) {
				typ( o.i( 3 ), o.i( 4 ), [&]( auto b0 ) {
					for( auto b : o.l( 6 ) )
						r.push_back( nat2<decltype( a0 ), decltype( b0 )>( o.s( 0 ), o.i( 5 ), b ) );
				} );
			} );
		} else if( o.is( "natrow" ) ) {
			typ( 8, o.i( 1 ), [&]( auto a0 ) {
				for( Int b = 1; b <= 127; ++b )
					r.push_back( nat2<decltype( a0 ), decltype( a0 )>( o.s( 0 ), o.i( 2 ), b ) );
			} );
		} else if( o.is( "natset" ) ) {
			typ( o.i( 0 ), o.i( 1 ), [&]( auto n0 ) {
				typ( o.i( 2 ), o.i( 3 ), [&]( auto v0 ) {
					auto const v = ld<decltype( v0 )>( o.l( 5 ) );
					using T = decltype( n0 );
					if( std::cmp_greater( v, std::numeric_limits<T>::max( ) ) ) {
						r.push_back( 2 );
						return;
					}
					daw::natural_t<T> n;
					if( n.value( ) != T{ 1 } )
						r.push_back( -3 );
					n = static_cast<T>( 5 );
					try {
						if( o.i( 4 ) == 0 ) {
							daw::natural_t<T> m( v );
							n = m;
						} else {
							n = v;
						}
						r.push_back( 1 );
						put( r, n.value( ) );
						if( static_cast<T>( n ) != n.value( ) )
							r.push_back( -4 );
					} catch( Bad const & ) {
						r.push_back( 0 );
						if( n.value( ) != T{ 5 } )
							r.push_back( -5 );
					}
				} );
			} );
		} else if( o.is( "nat1" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto n0 ) {
				using T = decltype( n0 );
				daw::natural_t<T> n = static_cast<T>( o.i( 3 ) );
				auto const &s = o.s( 0 );
				try {
					Int x = s == "++" ? static_cast<Int>( ( ++n ).value( ) ) : s == "--" ? static_cast<Int>( ( --n ).value( ) ) : s == "p++" ? static_cast<Int>( ( n++ ).value( ) ) : static_cast<Int>( ( n-- ).value( ) );
					r.push_back( 1 );
					r.push_back( x );
				} catch( Bad const & ) {
					r.push_back( 0 );
				}
				r.push_back( static_cast<Int>( n.value( ) ) );
			} );
		} else
#endif
#if GRP == 3
		  if( o.is( "mask" ) ) {
			typ( o.i( 1 ), 0, [&]( auto t0 ) {
				using T = decltype( t0 );
				put( r, o.s( 0 ) == "msb" ? daw::mask_msb<T>( o.u( 2 ) ) : daw::mask_lsb<T>( o.u( 2 ) ) );
			} );
		} else if( o.is( "bits" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto t0 ) {
				using T = decltype( t0 );
				T const v = ld<T>( o.l( 3 ) );
				auto const p = o.l( 4 );
				auto const &s = o.s( 0 );
				auto run = [&]( auto... b ) { put( r, s == "set" ? daw::set_bits( v, b... ) : s == "unset" ? daw::unset_bits( v, b... ) : daw::get_bits( v, b... ) ); };
				if( p.size( ) == 1 ) run( static_cast<unsigned>( p[0] ) );
				else if( p.size( ) == 2 ) run( static_cast<int>( p[0] ), static_cast<unsigned>( p[1] ) );
				else run( static_cast<unsigned char>( p[0] ), static_cast<int>( p[1] ), static_cast<unsigned long>( p[2] ) );
			} );
		} else if( o.is( "areset" ) ) {
			typ( o.i( 0 ), 0, [&]( auto t0 ) {
				using T = decltype( t0 );
				T const v = static_cast<T>( o.i( 1 ) );
				auto const m = o.l( 2 );
				auto run = [&]( auto... b ) {
					r.push_back( daw::are_set( v, b... ) );
					r.push_back( static_cast<Int>( daw::make_mask( b... ) ) );
				};
				if( m.size( ) == 1 ) run( static_cast<T>( m[0] ) );
				else if( m.size( ) == 2 ) run( static_cast<unsigned>( m[0] ), static_cast<T>( m[1] ) );
				else run( static_cast<T>( m[0] ), static_cast<T>( m[1] ), static_cast<T>( m[2] ) );
			} );
		} else if( o.is( "endian" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto t0 ) {
				using T = decltype( t0 );
				T const v = ld<T>( o.l( 3 ) );
				auto const &s = o.s( 0 );
				put( r, s == "le" ? daw::to_little_endian( v ) : s == "be" ? daw::to_big_endian( v ) : s == "net" ? daw::network_to_host_endian( v )
				        : s == "nle" ? daw::to_native_endian<daw::endian::little>( v ) : daw::to_native_endian<daw::endian::big>( v ) );
			} );
		} else if( o.is( "rev" ) ) {
			typ( o.i( 0 ), 0, [&]( auto t0 ) {
				if constexpr( std::is_unsigned_v<decltype( t0 )> )
					put( r, daw::integers::reverse_bits( ld<decltype( t0 )>( o.l( 1 ) ) ) );
			} );
		} else if( o.is( "abs" ) ) {
			typ( o.i( 0 ), o.i( 1 ), [&]( auto t0 ) {
				auto const v = ld<decltype( t0 )>( o.l( 2 ) );
				put( r, static_cast<std::uint64_t>( daw::math::abs( v ) ) );
			} );
		} else if( o.is( "powi" ) ) {
			wide( o.i( 1 ), 1, [&]( auto t0 ) {
				using T = decltype( t0 );
				T const b = static_cast<T>( o.i( 2 ) );
				auto const e = o.i( 3 );
				put( r, static_cast<T>( o.i( 0 ) == 0 ? daw::math::pow( b, static_cast<std::size_t>( e ) ) : o.i( 0 ) == 1 ? daw::cxmath::pow( b, static_cast<std::int32_t>( e ) ) : powu( b, e ) ) );
			} );
		} else if( o.is( "fact" ) ) {
			put( r, o.i( 0 ) == 0 ? static_cast<std::uint64_t>( daw::math::factorial( static_cast<int>( o.i( 1 ) ) ) ) : static_cast<std::uint64_t>( daw::math::factorial( static_cast<unsigned char>( o.i( 1 ) ) ) ) );
		} else if( o.is( "tab" ) ) {
			auto const &s = o.s( 0 );
			auto const n = o.u( 1 );
			put( r, s == "pow2" ? static_cast<std::uint64_t>( daw::math::pow2( static_cast<std::uintmax_t>( n ) ) ) : s == "pow10" ? static_cast<std::uint64_t>( daw::cxmath::pow10( n ) ) : static_cast<std::uint64_t>( pow10v( n, std::make_index_sequence<20>{ } ) ) );
		} else if( o.is( "rnd" ) ) {
			auto const &s = o.s( 0 );
			auto run = [&]( auto d ) { r.push_back( static_cast<Int>( s == "round" ? daw::math::round( d ) : s == "floor" ? daw::math::floor( d ) : daw::math::ceil( d ) ) ); };
			if( o.i( 1 ) == 0 ) run( static_cast<float>( o.i( 2 ) ) / 4.0f );
			else run( static_cast<double>( o.i( 2 ) ) / 4.0 );
		} else if( o.is( "rndby" ) ) {
			auto const &s = o.s( 0 );
			double const d = static_cast<double>( o.i( 1 ) ) / 4.0, by = static_cast<double>( o.i( 2 ) );
			double const v = s == "round" ? daw::math::round_by( d, by ) : s == "floor" ? daw::math::floor_by( d, by ) : daw::math::ceil_by( d, by );
			r.push_back( static_cast<Int>( v ) );
			if( v != std::trunc( v ) )
				r.push_back( -1 );
		} else if( o.is( "bitfn" ) ) {
			namespace cx = daw::cxmath;
			auto const &s = o.s( 0 );
			if( o.i( 1 ) == 128 ) {
				auto const v = ld<daw::uint128_t>( o.l( 2 ) );
				r.push_back( s == "clz" ? static_cast<Int>( cx::count_leading_zeros( v ) ) : static_cast<Int>( cx::popcount( v ) ) );
			} else if( s == "clz" or s == "ctz" ) {
				wide( o.i( 1 ), 0, [&]<typename T>( T ) {
					using t0 = std::make_unsigned_t<T>;
					auto const v = ld<t0>( o.l( 2 ) );
					r.push_back( static_cast<Int>( s == "clz" ? cx::count_leading_zeroes( v ) : cx::count_trailing_zeros( v ) ) );
					if( s == "clz" ) {
						auto const u = ld<daw::UInt<sizeof( t0 ) * 8>>( o.l( 2 ) );
						if( cx::count_leading_zeroes( u ) != cx::count_leading_zeroes( v ) )
							r.push_back( -1 );
					} else if( cx::cxmath_impl::count_trailing_zeros_cx( v ) != cx::count_trailing_zeros( v ) ) {
						r.push_back( -1 );
					}
				} );
			} else {
				typ( o.i( 1 ), s.back( ) == 'S', [&]( auto t0 ) {
					auto const v = ld<decltype( t0 )>( o.l( 2 ) );
					r.push_back( s.compare( 0, 3, "pop" ) == 0 ? static_cast<Int>( cx::popcount( v ) ) : s[0] == 'o' ? cx::is_odd( v ) : cx::is_even( v ) );
				} );
			}
		} else if( o.is( "rup" ) ) {
			wide( o.i( 0 ), 0, [&]<typename T>( T ) { put( r, daw::cxmath::round_up_pow2( ld<std::make_unsigned_t<T>>( o.l( 1 ) ) ) ); } );
		} else if( o.is( "cdig" ) ) {
			r.push_back( daw::cxmath::count_digits( ld<std::uint64_t>( o.l( 0 ) ) + static_cast<std::uint64_t>( o.i( 1 ) ) ) );
		} else if( o.is( "conv" ) ) {
			typ( o.i( 1 ), o.i( 2 ), [&]( auto t0 ) {
				auto const v = ld<decltype( t0 )>( o.l( 3 ) );
				if( o.s( 0 ) == "tou" ) {
					auto const x = daw::cxmath::to_unsigned( v );
					r.push_back( std::is_signed_v<decltype( x )> );
					put( r, x );
				} else {
					auto const x = daw::cxmath::to_signed( v );
					r.push_back( std::is_signed_v<decltype( x )> );
					put( r, x );
				}
			} );
		} else if( o.is( "csign" ) ) {
			wide( o.i( 0 ), 1, [&]( auto t0 ) { r.push_back( daw::cxmath::copy_sign( static_cast<decltype( t0 )>( o.i( 1 ) ), static_cast<int>( o.i( 2 ) ) ) ); } );
		} else if( o.is( "bset" ) ) {
			if( o.i( 1 ) == 1 ) bset<1>( o.i( 0 ), o.l( 2 ), r );
			else if( o.i( 1 ) == 8 ) bset<8>( o.i( 0 ), o.l( 2 ), r );
			else bset<70>( o.i( 0 ), o.l( 2 ), r );
		} else
#endif
#if GRP == 4
		  if( o.is( "flt" ) ) {
			namespace cx = daw::cxmath;
			auto const &s = o.s( 1 );
			flt( o.i( 0 ), [&]( auto f0 ) {
				auto const v = ld<decltype( f0 )>( o.l( 2 ) );
				if( s == "cls" ) r.push_back( static_cast<Int>( cx::fp_classify( v ) ) );
				else if( s == "nan" ) r.push_back( cx::is_nan( v ) );
				else if( s == "inf" ) r.push_back( cx::is_inf( v ) );
				else if( s == "fin" ) r.push_back( cx::is_finite( v ) );
				else if( s == "abs" ) put( r, cx::abs( v ) );
				else if( s == "sig" ) put( r, cx::get_significand( v ) );
				else if( s == "exp" ) r.push_back( cx::get_exponent( v ) );
				else r.push_back( static_cast<Int>( cx::fp_classify( cx::sqrt( v ) ) ) );
			} );
		} else if( o.is( "fset" ) ) {
			flt( o.i( 0 ), [&]( auto f0 ) {
				auto const v = ld<decltype( f0 )>( o.l( 2 ) );
				auto const e = static_cast<std::int32_t>( o.i( 3 ) );
				put( r, o.s( 1 ) == "set" ? daw::cxmath::set_exponent( v, e ) : daw::cxmath::adjust_exponent( v, e ) );
			} );
		} else if( o.is( "fsign" ) ) {
			flt( o.i( 0 ), [&]( auto f0 ) { put( r, daw::cxmath::copy_sign( ld<decltype( f0 )>( o.l( 1 ) ), ld<decltype( f0 )>( o.l( 2 ) ) ) ); } );
		} else if( o.is( "fpow2" ) ) {
			flt( o.i( 0 ), [&]( auto f0 ) { put( r, daw::cxmath::pow2<decltype( f0 )>( static_cast<std::int32_t>( o.i( 1 ) ) ) ); } );
		} else if( o.is( "fexp" ) ) {
			put( r, daw::cxmath::ldexp( ld<double>( o.l( 1 ) ), static_cast<std::int32_t>( o.i( 0 ) ) ) );
		} else if( o.is( "ulp" ) ) {
			put( r, daw::cxmath::adj_ulp( ld<double>( o.l( 0 ) ), static_cast<int>( o.i( 1 ) ) ) );
		} else if( o.is( "dpow" ) ) {
			auto const e = static_cast<std::int32_t>( o.i( 1 ) );
			if( o.s( 0 ) == "d2" ) put( r, daw::cxmath::dpow2( e ) );
			else put( r, static_cast<std::uint64_t>( daw::cxmath::dpow10( e ) ) );
		} else
#endif
			vt::bad_op( o );
	}
#if GRP == 3
	template<typename T>
	static T powu( T b, Int e ) {
		return daw::cxmath::pow_n( b, static_cast<unsigned>( e ) );
	}
#endif
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
