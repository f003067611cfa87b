// Calls of the hash functions (spec/Hash.tla). GRP selects the operations compiled in.
#include "trace.h"

#include <array>
#include <cstdint>
#include <cstring>
#include <list>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#if GRP == 1
#define DAW_FORCE_FNV1A_TYPE std::uint32_t
#endif
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_sip_hash.h>
#include <daw/daw_string_view.h>

using vt::Int;
using vt::Op;
using vt::Res;
using Bytes = std::vector<Int>;

template<typename H>
static void put( Res &r, H h ) {
	static_assert( std::is_unsigned_v<H> );
	for( std::size_t i = 0; i < sizeof( H ); ++i )
		r.push_back( static_cast<Int>( ( h >> ( 8 * i ) ) & 0xFFU ) );
}
template<typename T>
static std::vector<T> elems( Bytes const &q ) {
	std::string raw;
	for( auto c : q )
		raw.push_back( static_cast<char>( static_cast<unsigned char>( c ) ) );
	if( raw.size( ) % sizeof( T ) != 0 )
		std::abort( );
	std::vector<T> v( raw.size( ) / sizeof( T ) );
	if( not v.empty( ) )
		std::memcpy( v.data( ), raw.data( ), raw.size( ) );
	return v;
}
template<typename F>
static void elem_type( Int w, Int sg, F f ) {
	switch( w * 2 + sg ) {
	case 2: return f( static_cast<unsigned char>( 0 ) );
	case 3: return f( static_cast<char>( 0 ) );
	case 4: return f( std::uint16_t{ } );
	case 5: return f( std::int16_t{ } );
	case 8: return f( std::uint32_t{ } );
	case 9: return f( std::int32_t{ } );
	case 16: return f( std::uint64_t{ } );
	case 17: return f( std::int64_t{ } );
	}
	std::abort( );
}
template<typename T, typename F>
static auto as_array( std::vector<T> const &v, F f ) {
	auto fill = [&]( auto &a ) {
		std::size_t i = 0;
		for( auto &x : a )
			x = v[i++];
		return f( std::as_const( a ) );
	};
	if( v.size( ) == 1 ) {
		T a[1];
		return fill( a );
	}
	if( v.size( ) == 2 ) {
		T a[2];
		return fill( a );
	}
	if( v.size( ) != 3 )
		std::abort( );
	T a[3];
	return fill( a );
}
// a C string followed by something that would change the hash
static std::string cstr( std::vector<char> const &v ) {
	std::string s( v.begin( ), v.end( ) );
	s.push_back( '\0' );
	s += "tail";
	return s;
}
template<typename T>
static constexpr bool is_char = std::is_same_v<T, char>;

#if GRP <= 1
template<typename T>
static void fnv( Int form, std::vector<T> const &v, Res &r ) {
	daw::fnv1a_hash_t const h{ };
	using obj_t = std::conditional_t<is_char<T>, signed char, T>;
	static_assert( std::is_same_v<decltype( h( T{ } ) ), daw::fnv1a_uint_t> );
	static_assert( sizeof( daw::fnv1a_uint_t ) == ( GRP == 0 ? 8 : 4 ) );
	switch( form ) {
	case 1: {
		auto const x = h( v.begin( ), v.end( ) );
		std::list<T> const l( v.begin( ), v.end( ) );
		if( x != h( l.begin( ), l.end( ) ) or x != h( v.data( ), v.data( ) + v.size( ) ) )
			r.push_back( -1 );
		return put( r, x );
	}
	case 2: {
		auto const x = h( v );
		auto c = v;
		if( x != h( c ) or x != h( std::move( c ) ) )
			r.push_back( -1 );
		if constexpr( is_char<T> ) {
			std::string const s( v.begin( ), v.end( ) );
			if( x != h( s ) or x != h( std::string_view( s ) ) or x != h( daw::string_view( s.data( ), s.size( ) ) ) )
				r.push_back( -2 );
		}
		return put( r, x );
	}
	case 3: return put( r, as_array( std::vector<obj_t>( v.begin( ), v.end( ) ), [&]( auto const &a ) { return h( a ); } ) );
	case 4: return put( r, h( v.at( 0 ) ) );
	case 5:
		if constexpr( is_char<T> )
			return put( r, h( cstr( v ).c_str( ) ) );
		else
			return put( r, h( reinterpret_cast<char const *>( cstr( std::vector<char>( v.begin( ), v.end( ) ) ).c_str( ) ) ) );
	case 6: {
		obj_t const x = static_cast<obj_t>( v.at( 0 ) );
		return put( r, h( &x ) );
	}
	case 7: return put( r, daw::fnv1a_hash( v.at( 0 ) ) );
	case 8: return put( r, daw::fnv1a_hash( cstr( std::vector<char>( v.begin( ), v.end( ) ) ).c_str( ) ) );
	case 9: return put( r, daw::fnv1a_hash( v.data( ), v.size( ) ) );
	case 10: {
		auto const x = daw::fnv1a_hash( v );
		if constexpr( is_char<T> ) {
			std::string const s( v.begin( ), v.end( ) );
			if( x != daw::fnv1a_hash( s ) or x != daw::fnv1a_hash( std::string_view( s ) ) )
				r.push_back( -2 );
		}
		return put( r, x );
	}
	case 11: {
		auto x = daw::fnv1a_impl::fnv_offset;
		for( auto const &e : v )
			x = daw::fnv1a_hash_t::append_hash( x, e );
		return put( r, x );
	}
	}
	std::abort( );
}
#endif
#if GRP == 2
template<std::size_t HW, typename T>
static void gen( Int form, std::vector<T> const &v, Res &r ) {
	daw::generic_hash_t<HW> const h{ };
	static_assert( sizeof( h( T{ } ) ) == HW and decltype( h )::hash_size == HW );
	switch( form ) {
	case 1: {
		auto const x = h( v.begin( ), v.end( ) );
		std::list<T> const l( v.begin( ), v.end( ) );
		if( x != h( l.begin( ), l.end( ) ) )
			r.push_back( -1 );
		return put( r, x );
	}
	case 3: return put( r, as_array( v, [&]( auto const &a ) { return h( a ); } ) );
	case 4: return put( r, h( v.at( 0 ) ) );
	case 6:
		if constexpr( HW == 8 ) {
			T const x = v.at( 0 );
			return put( r, h( &x ) );
		}
		break;
	case 7: return put( r, daw::generic_hash<HW>( v.at( 0 ) ) );
	case 9: return put( r, daw::generic_hash<HW>( v.data( ), v.size( ) ) );
	case 10: {
		auto const x = daw::generic_hash<HW>( v );
		if constexpr( is_char<T> ) {
			std::string s( v.begin( ), v.end( ) );
			if( x != daw::generic_hash<HW>( s ) )
				r.push_back( -2 );
		}
		return put( r, x );
	}
	case 12: {
		auto c = v;
		return put( r, daw::generic_hash<HW>( std::move( c ) ) );
	}
	case 13: {
		auto const x = daw::generic_hash<HW>( v.begin( ), v.end( ) );
		if( HW == sizeof( daw::genhash_uint_t ) and x != daw::generic_hash( v.begin( ), v.end( ) ) )
			r.push_back( -1 );
		return put( r, x );
	}
	case 14:
		if constexpr( is_char<T> )
			return put( r, as_array( v, [&]( auto const &a ) { return daw::generic_hash<HW>( a ); } ) );
		else
			return put( r, as_array( std::vector<char>( v.begin( ), v.end( ) ), [&]( auto const &a ) { return daw::generic_hash<HW>( a ); } ) );
	}
	std::abort( );
}
#endif

struct World {
	inline static std::string variant;
	explicit World( vt::Cfg const & ) {}

	void op( Op const &o, Res &r ) {
		auto texts = [&]( std::size_t j ) {
			std::vector<Bytes> ts;
			for( auto const &x : o.a.at( j ).v )
				ts.push_back( x.ints( ) );
			return ts;
		};
#if GRP <= 1
		if( o.is( GRP == 0 ? "fnv8" : "fnv4" ) )
			return elem_type( o.i( 1 ), o.i( 2 ), [&]( auto z ) {
				for( auto const &t : texts( 3 ) )
					fnv( o.i( 0 ), elems<decltype( z )>( t ), r );
			} );
#elif GRP == 2
		if( o.is( "gen" ) )
			return elem_type( o.i( 1 ), o.i( 2 ), [&]( auto z ) {
				for( auto const &t : texts( 4 ) ) {
					auto const v = elems<decltype( z )>( t );
					if( o.i( 3 ) == 4 )
						gen<4>( o.i( 0 ), v, r );
					else
						gen<8>( o.i( 0 ), v, r );
				}
			} );
#elif GRP == 3
		if( o.is( "sip" ) ) {
			auto const key = elems<char>( o.l( 0 ) );
			for( auto const &t : texts( 1 ) ) {
				auto const v = elems<char>( t );
				put( r, daw::siphash24( v.data( ), v.size( ), key.data( ) ) );
			}
			return;
		}
#else
		if( o.is( "metro" ) ) {
			auto const seed = elems<std::uint64_t>( o.l( 0 ) ).at( 0 );
			for( auto const &t : texts( 1 ) ) {
				auto const v = elems<char>( t );
				put( r, daw::metro::hash64( daw::string_view( v.data( ), v.size( ) ), seed ) );
			}
			return;
		}
#endif
		vt::bad_op( o );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
