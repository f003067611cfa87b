P = '''#include <cstdio>
#include <cstdlib>
#define CHECK( ... ) do { if( not( __VA_ARGS__ ) ) { std::printf( "failed: %s\\n", #__VA_ARGS__ ); return 1; } } while( 0 )
'''
seed('c28-gen-len-narrow', 'C28', 'include/daw/daw_generic_hash.h', [("""		for( std::size_t n = 0; n < len; ++n ) {
			hash = hash_t::append_hash( hash, *first );""", """		for( std::size_t n = 0; n < len; ++n ) {
			hash = hash_t::append_hash( hash, static_cast<unsigned char>( *first ) );""")],
 "generic_hash of a pointer and length on elements wider than a byte", "only the lowest byte of each element takes part",
 P + '''#include <daw/daw_generic_hash.h>
int main( ) {
	int const a[2] = { 0x101, 0x70002 };
	CHECK( daw::generic_hash( a, std::size_t{ 2 } ) == daw::generic_hash( a, a + 2 ) );
	CHECK( daw::generic_hash<4>( a, std::size_t{ 1 } ) == daw::generic_hash<4>( 0x101 ) );
}
''')
seed('c28-sip-length', 'C28', 'include/daw/daw_sip_hash.h', [("uint64_t b = static_cast<uint64_t>( sz ) << 56ULL;", "uint64_t b = static_cast<uint64_t>( sz & 0x3FU ) << 56ULL;")],
 "a text of 64 bytes or more", "the length in the last block is reduced modulo 64 and not 256",
 P + '''#include <daw/daw_sip_hash.h>
#include <string>
int main( ) {
	std::string key, text;
	for( int i = 0; i < 16; ++i )
		key.push_back( static_cast<char>( i ) );
	for( int i = 0; i < 100; ++i )
		text.push_back( static_cast<char>( i ) );
	std::string const t256 = std::string( 64, 'a' );
	// the last block of a text whose length is a multiple of 8 is its length alone
	CHECK( daw::siphash24( text.data( ), 15, key.data( ) ) == 0xa129ca6149be45e5ULL );
	auto rotl = []( unsigned long long x, int n ) { return ( x << n ) | ( x >> ( 64 - n ) ); };
	auto sip = [&]( std::string const &q ) {
		unsigned long long v[4], k[2] = { 0, 0 };
		for( int i = 0; i < 16; ++i )
			k[i / 8] |= static_cast<unsigned long long>( i ) << ( 8 * ( i % 8 ) );
		v[0] = k[0] ^ 0x736f6d6570736575ULL; v[1] = k[1] ^ 0x646f72616e646f6dULL; v[2] = k[0] ^ 0x6c7967656e657261ULL; v[3] = k[1] ^ 0x7465646279746573ULL;
		auto round = [&] {
			v[0] += v[1]; v[1] = rotl( v[1], 13 ) ^ v[0]; v[0] = rotl( v[0], 32 );
			v[2] += v[3]; v[3] = rotl( v[3], 16 ) ^ v[2];
			v[0] += v[3]; v[3] = rotl( v[3], 21 ) ^ v[0];
			v[2] += v[1]; v[1] = rotl( v[1], 17 ) ^ v[2]; v[2] = rotl( v[2], 32 );
		};
		for( std::size_t p = 0;; p += 8 ) {
			unsigned long long m = 0;
			bool const last = q.size( ) - p < 8;
			for( std::size_t i = 0; i < 8 and p + i < q.size( ); ++i )
				m |= static_cast<unsigned long long>( static_cast<unsigned char>( q[p + i] ) ) << ( 8 * i );
			if( last )
				m |= static_cast<unsigned long long>( q.size( ) & 255 ) << 56;
			v[3] ^= m; round( ); round( ); v[0] ^= m;
			if( last )
				break;
		}
		v[2] ^= 255; round( ); round( ); round( ); round( );
		return v[0] ^ v[1] ^ v[2] ^ v[3];
	};
	for( std::size_t n = 0; n < 100; ++n )
		CHECK( daw::siphash24( text.data( ), n, key.data( ) ) == sip( text.substr( 0, n ) ) );
}
''')
seed('c28-metro-sign', 'C28', 'include/daw/daw_metro_hash.h', [("auto const tmp = static_cast<unsigned char>(ptr[n]);", "auto const tmp = ptr[n];")],
 "bytes above 127 in a piece of two or more", "their sign reaches the bytes above",
 P + '''#include <daw/daw_metro_hash.h>
int main( ) {
	char const a[4] = { static_cast<char>( 0x80 ), 1, 2, 3 };
	CHECK( daw::metro::metro_impl::as_le_uint<std::uint32_t>( a ) == 0x03020180U );
	char const b[8] = { static_cast<char>( 0x80 ), 1, 2, 3, 4, 5, 6, 7 }, c[8] = { static_cast<char>( 0x80 ), static_cast<char>( 0xFF ), 2, 3, 4, 5, 6, 7 };
	CHECK( daw::metro::metro_impl::as_le_uint<std::uint64_t>( b ) != daw::metro::metro_impl::as_le_uint<std::uint64_t>( c ) );
	char const d[2] = { static_cast<char>( 0x80 ), 1 }, e[2] = { static_cast<char>( 0x80 ), static_cast<char>( 0xFE ) };
	CHECK( daw::metro::hash64( daw::string_view( d, 2 ), 0 ) != daw::metro::hash64( daw::string_view( e, 2 ), 0 ) );
	char const g[2] = { static_cast<char>( 0x80 ), static_cast<char>( 0xFF ) }, h[2] = { static_cast<char>( 0x80 ), 0x7F };
	CHECK( daw::metro::metro_impl::as_le_uint<std::uint16_t>( g ) == 0xFF80U );
	CHECK( daw::metro::metro_impl::as_le_uint<std::uint16_t>( h ) == 0x7F80U );
}
''')
seed('c28-phash-in-bucket', 'C28', 'include/daw/daw_min_perfect_hash.h', [("""					          slots_this_bucket.begin( ), slots_this_bucket.end( ),
					          slot_wanted ) != slots_this_bucket.end( ) ) ) {""", """					          slots_this_bucket.rbegin( ), slots_this_bucket.rbegin( ) + static_cast<std::ptrdiff_t>( slots_this_bucket.empty( ) ? 0 : 1 ),
					          slot_wanted ) != slots_this_bucket.rbegin( ) + static_cast<std::ptrdiff_t>( slots_this_bucket.empty( ) ? 0 : 1 ) ) ) ) {""")],
 "three keys in one bucket of which the first and the last want one slot", "a slot is compared with the one before only, two keys get one slot and one of them is lost",
 P + '''#include <daw/daw_min_perfect_hash.h>
#include <utility>
struct Same {
	constexpr std::size_t operator( )( int k ) const { return static_cast<std::size_t>( k ); }
};
int main( ) {
	for( int a = 0; a < 40; ++a ) {
		std::pair<int, int> const d[7] = { { 4 * a, 1 }, { 4 * a + 4, 2 }, { 4 * a + 8, 3 }, { 4 * a + 12, 4 }, { 4 * a + 16, 5 }, { 4 * a + 24, 6 }, { 4 * a + 40, 7 } };
		auto const t = daw::make_perfect_hash_table<Same>( d );
		for( auto const &p : d )
			CHECK( t.find( p.first ) and *t.find( p.first ) == p.second );
	}
}
''')
seed('c28-fnv-nul', 'C28', 'include/daw/daw_fnv1a_hash.h', [("""			auto const *first = std::data( sv );
			auto const *const last = daw::data_end( sv );
			auto hash = fnv1a_impl::fnv_offset;
			while( first != last ) {""", """			auto const *first = std::data( sv );
			auto const *const last = daw::data_end( sv );
			auto hash = fnv1a_impl::fnv_offset;
			while( first != last and *first != 0 ) {""")],
 "a string with a NUL inside", "the hash of a string ends at the first NUL",
 P + '''#include <daw/daw_fnv1a_hash.h>
#include <string>
int main( ) {
	daw::fnv1a_hash_t const h{ };
	std::string const a( "a\\0b", 3 ), b( "a\\0c", 3 );
	CHECK( h( a ) != h( b ) );
	CHECK( h( a ) == h( a.begin( ), a.end( ) ) );
}
''')
