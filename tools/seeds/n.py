P='''#include <bits/stdc++.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''

seed("c26-in-range-wider", "C26", "include/daw/daw_int_cmp.h", [("""		if constexpr( std::is_same_v<R, T> ) {
			return true;""","""		if constexpr( std::is_same_v<R, T> or ( sizeof( R ) > sizeof( T ) ) ) {
			// everything fits into the same, or a wider, type
			return true;""")],
 "in_range of a negative value for a wider unsigned type", "negative values are said to fit into a wider unsigned type",
 P+"""#include <daw/daw_int_cmp.h>
int main(){ volatile int a=-1; CHECK( not daw::in_range<unsigned long long>( (int)a ) ); CHECK( not daw::in_range<std::uint32_t>( (short)a ) ); CHECK( daw::in_range<long long>( (int)a ) ); return 0; }
""")
seed("c26-u64-mul-u32", "C26", "include/daw/daw_uint_types.h", [("""	constexpr UInt64 operator*( UInt32 lhs, UInt64 rhs ) noexcept {
		return static_cast<UInt64>( static_cast<std::uint64_t>( lhs ) *
		                            static_cast<std::uint64_t>( rhs ) );""","""	constexpr UInt64 operator*( UInt32 lhs, UInt64 rhs ) noexcept {
		return static_cast<UInt64>( static_cast<std::uint32_t>( lhs ) *
		                            static_cast<std::uint32_t>( rhs ) );""")],
 "a UInt32 on the left of a UInt64, and a product over 32 bits", "the product is taken modulo 2^32",
 P+"""#include <daw/daw_uint_types.h>
int main(){ auto a=static_cast<daw::UInt32>( 70000U ); auto b=static_cast<daw::UInt64>( 70000ULL ); CHECK( static_cast<std::uint64_t>( a*b )==4900000000ULL ); return 0; }
""")
seed("c26-mask-full", "C26", "include/daw/daw_bit.h", [("""		if( bit_count >= daw::bsizeof<T> ) {
			return static_cast<T>( 0 );
		}
		return static_cast<T>( max_value<T> << bit_count );""","""		if( bit_count > daw::bsizeof<T> ) {
			return static_cast<T>( 0 );
		}
		return static_cast<T>( max_value<T> << bit_count );""")],
 "mask_lsb of a 32 or 64 bit type with a count of exactly its width", "shifts by the width: the mask is full and not empty",
 P+"""#include <daw/daw_bit.h>
int main(){ volatile std::size_t n=64; CHECK( daw::mask_lsb<std::uint64_t>( n )==0 ); n=32; CHECK( daw::mask_lsb<std::uint32_t>( n )==0 ); return 0; }
""","-O1")
