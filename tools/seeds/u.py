P = '''#include <cstdio>
#include <cstdlib>
#define CHECK( ... ) do { if( not( __VA_ARGS__ ) ) { std::printf( "failed: %s\\n", #__VA_ARGS__ ); return 1; } } while( 0 )
'''
seed('c31-notnull-assign-null', 'C31', 'include/daw/daw_not_null.h', [("""		  DAW_ATTRIB_ENABLE_IF( not __builtin_constant_p( ptr ), " " ) {
			m_ptr = ptr;
			if( DAW_UNLIKELY( ptr == null_value ) ) {""", """		  DAW_ATTRIB_ENABLE_IF( not __builtin_constant_p( ptr ), " " ) {
			if( ptr == m_ptr ) {
				return *this;
			}
			std::swap( m_ptr, const_cast<pointer &>( static_cast<pointer const &>( ptr ) ) );
			if( DAW_UNLIKELY( ptr == null_value ) ) {""")],
 "assigning null to a not_null at run time", "the check looks at the pointer replaced, and null is accepted",
 P + '''#include <utility>
#include <daw/daw_not_null.h>
#include <exception>
int main( int argc, char ** ) {
	int a = 1;
	int *none = argc > 100 ? &a : nullptr;
	daw::not_null<int *> n( &a );
	std::set_terminate( [] { std::_Exit( 0 ); } );
	n = none;
	std::puts( "null accepted" );
	return 1;
}
''')
seed('c31-notnull-minus', 'C31', 'include/daw/daw_not_null.h', [("""		operator+( std::ptrdiff_t n, NotNull rhs ) noexcept {
			DAW_ASSUME( rhs.m_ptr != null_value );
			rhs += n;""", """		operator+( std::ptrdiff_t n, NotNull rhs ) noexcept {
			DAW_ASSUME( rhs.m_ptr != null_value );
			rhs += n < 0 ? -n : n;""")],
 "a negative distance added on the left of a not_null", "it is added as a positive one",
 P + '''#include <utility>
#include <daw/daw_not_null.h>
int main( ) {
	int a[5] = { };
	daw::not_null<int *> n( a + 2 );
	CHECK( ( -2 + n ).get( ) == a );
}
''')
seed('c31-observer-orelse', 'C31', 'include/daw/daw_monadic_pointer_ops.h', [("""		if( not p ) {
			return daw::invoke( DAW_FWD( f ) );
		}
		return DAW_FWD( p );""", """		daw::remove_cvref_t<Pointer> alt = daw::invoke( DAW_FWD( f ) );
		if( not p ) {
			return alt;
		}
		return DAW_FWD( p );""")],
 "or_else of a pointer that is not null with a function that has effects", "the function is called although there is a value",
 P + '''#include <daw/daw_attributes.h>
#include <daw/daw_monadic_pointer_ops.h>
#include <daw/daw_observer_ptr.h>
int main( ) {
	int a = 1, calls = 0;
	daw::observer_ptr<int> p( &a );
	auto q = p.or_else( [&] { ++calls; return daw::observer_ptr<int>( nullptr ); } );
	CHECK( q.get( ) == &a and calls == 0 );
}
''')
seed('c31-propconst-ge', 'C31', 'include/daw/daw_prop_const_ptr.h', [("			return lhs.m_ptr >= rhs.m_ptr;", "			return lhs.m_ptr > rhs.m_ptr;")],
 ">= on equal prop_const_ptrs", "is false",
 P + '''#include <cassert>
#include <daw/daw_prop_const_ptr.h>
int main( ) {
	int a[3] = { };
	daw::prop_const_ptr<int> p( a + 1 ), q( a + 1 );
	CHECK( p >= q and p <= q );
}
''')
seed('c31-sbo-dealloc', 'C31', 'include/daw/daw_sbo.h', [("				std::allocator_traits<Allocator>::destroy( allocator, ptr );\n", "				if constexpr( not std::is_nothrow_move_constructible_v<T> ) {\n					std::allocator_traits<Allocator>::destroy( allocator, ptr );\n				}\n")],
 "an object larger than the buffer that moves without throwing", "is freed without being destroyed",
 P + '''#include <cassert>
#include <memory>
#include <daw/daw_sbo.h>
static int live = 0;
struct T {
	char data[100];
	T( ) { ++live; }
	T( T &&o ) noexcept { ++live; }
	~T( ) { --live; }
};
int main( ) {
	daw::sbo_storage<8> s{ };
	s.allocate( T{ } );
	CHECK( live == 1 );
	s.deallocate<T>( );
	CHECK( live == 0 );
}
''')
