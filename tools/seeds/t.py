P = '''#include <cstdio>
#include <cstdlib>
#define CHECK( ... ) do { if( not( __VA_ARGS__ ) ) { std::printf( "failed: %s\\n", #__VA_ARGS__ ); return 1; } } while( 0 )
'''
seed('c27-keepn-ties', 'C27', 'include/daw/daw_keep_n.h', [("""		constexpr void insert( value_type &&v ) {
			for( size_t n = 0; n < MaxItems; ++n ) {
				if( m_pred( v, m_values[n] ) ) {""", """		constexpr void insert( value_type &&v ) {
			for( size_t n = 0; n < MaxItems; ++n ) {
				if( not m_pred( m_values[n], v ) ) {""")],
 "a value moved in that is equal in the order to one kept and can be told apart from it", "the new value displaces the earlier one instead of following it",
 P + '''#include <daw/daw_keep_n.h>
struct V { int key; int id; };
struct Less { constexpr bool operator( )( V const &a, V const &b ) const { return a.key < b.key; } };
int main( ) {
	daw::keep_n<V, 2, daw::keep_n_order::ascending, Less> k( V{ 9, 0 } );
	k.insert( V{ 5, 1 } );
	k.insert( V{ 5, 2 } );
	k.insert( V{ 5, 3 } );
	CHECK( k[0].id == 1 and k[1].id == 2 );
}
''')
seed('c27-keepn-shift', 'C27', 'include/daw/daw_keep_n.h', [("""					for( size_t m = ( MaxItems - 1U ); m > n; --m ) {
						m_values[m] = std::move( m_values[m - 1] );
					}
					m_values[n] = v;""", """					size_t const last = n == 0 ? MaxItems - 1U : n + ( MaxItems - n ) / 2U;
					for( size_t m = last; m > n; --m ) {
						m_values[m] = std::move( m_values[m - 1] );
					}
					m_values[n] = v;""")],
 "a keep_n of three or more with an insert in the middle", "values after the place of insertion are not all moved one on, or one past the end is",
 P + '''#include <daw/daw_keep_n.h>
int main( ) {
	daw::keep_n<int, 4> k( 100 );
	for( int v : { 10, 20, 30, 40 } )
		k.insert( v );
	int const x = 15;
	k.insert( x );
	CHECK( k[0] == 10 and k[1] == 15 and k[2] == 20 and k[3] == 30 );
}
''')
seed('c27-tuple-unequal', 'C27', 'include/daw/daw_tuple.h', [("return ( p( get<Is>( ), rhs.template get<Is>( ) ) or ... );", "return sizeof...( Is ) > 4 ? ( p( get<Is>( ), rhs.template get<Is>( ) ) and ... ) : ( p( get<Is>( ), rhs.template get<Is>( ) ) or ... );")],
 "!= on tuples of five or more elements that differ in some elements and agree in others", "tuples that differ in one element are not unequal",
 P + '''#include <daw/daw_tuple.h>
int main( ) {
	daw::tuple<int, int, int, int, int> a( 1, 2, 3, 0, 0 ), b( 1, 2, 4, 0, 0 );
	CHECK( a != b );
	CHECK( not( a == b ) );
}
''')
seed('c27-cat-location', 'C27', 'include/daw/daw_tuple2.h', [("""					for( std::size_t m = 0; m < orig[n]; ++m ) {
						result[idx] = encode_location( n, m );""", """					for( std::size_t m = 0; m < orig[n]; ++m ) {
						result[idx] = encode_location( n, m < 4 ? m : 3 );""")],
 "concatenating a tuple of five or more elements of one type", "the elements after the fourth are copies of the fourth",
 P + '''#include <daw/daw_tuple2.h>
int main( ) {
	daw::tuple2<int, int, int, int, int> a{ 1, 2, 3, 4, 5 };
	daw::tuple2<int> b{ 6 };
	auto c = daw::tuple2_cat( a, b );
	CHECK( daw::get<4>( c ) == 5 );
	CHECK( daw::get<5>( c ) == 6 );
}
''')
seed('c27-value-minus-tuple', 'C27', 'include/daw/daw_tuple_helper.h', [("""					::Unused( ( daw::invoke( DAW_FWD( f ), std::get<I>( result ), op1,
					                         std::get<I>( op2 ) ),
					            0 ) );""", """					::Unused( ( daw::invoke( DAW_FWD( f ), std::get<I>( result ),
					                         std::get<I>( op2 ), op1 ),
					            0 ) );""")],
 "a value minus or divided by a tuple", "the operands are swapped",
 P + '''#include <daw/daw_tuple_helper.h>
int main( ) {
	using namespace daw::tuple::operators;
	auto const r = 10 - std::tuple<int, int>( 1, 2 );
	CHECK( std::get<0>( r ) == 9 and std::get<1>( r ) == 8 );
}
''')
seed('c27-get-runtime', 'C27', 'include/daw/daw_tuple_helper.h', [("			constexpr bool apply_func( size_t idx, Func func, Arg &&arg ) noexcept(", "			constexpr bool apply_func( unsigned char idx, Func func, Arg &&arg ) noexcept(")],
 "apply_at with an index of 256 or more", "an index past the end calls the function with the element at its low byte",
 P + '''#include <daw/daw_tuple_helper.h>
int main( ) {
	std::tuple<int, int> t( 1, 2 );
	int calls = 0;
	daw::tuple::apply_at( t, 257, [&]( int ) { ++calls; } );
	CHECK( calls == 0 );
}
''')
