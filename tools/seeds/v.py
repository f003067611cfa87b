P = '''#include <cstdio>
#include <cstdlib>
#define CHECK( ... ) do { if( not( __VA_ARGS__ ) ) { std::printf( "failed: %s\\n", #__VA_ARGS__ ); return 1; } } while( 0 )
'''
seed('c32-factory-moves', 'C32', 'include/daw/daw_piecewise_factory.h', [("""			constexpr T operator( )( ) & {
				return piecewise_applier<T>( m_args );""", """			constexpr T operator( )( ) & {
				return piecewise_applier<T>( std::move( m_args ) );""")],
 "a factory that is not an rvalue called twice with an argument that is emptied by a move", "the second value is made of the moved-from argument",
 P + '''#include <daw/daw_piecewise_factory.h>
#include <string>
struct B { int a; std::string s; B( int x, std::string y ) : a( x ), s( std::move( y ) ) {} };
int main( ) {
	daw::piecewise_factory_t<B, int, std::string> f;
	std::string const t = "a string that is too long for the small buffer";
	f.set<0>( 5 );
	f.set<1>( t );
	CHECK( f( ).s == t );
	CHECK( f( ).s == t );
}
''')
seed('c32-factory-late-once', 'C32', 'include/daw/daw_piecewise_factory.h', [("""			std::function<traits::nth_type<N, Args...>( )> func = DAW_FWD( f );
			std::get<N>( this->m_args ) = std::move( func );""", """			if constexpr( std::is_arithmetic_v<traits::nth_type<N, Args...>> and N > 0 ) {
				std::get<N>( this->m_args ) =
				  static_cast<traits::nth_type<N, Args...>>( f( ) );
			} else {
				std::function<traits::nth_type<N, Args...>( )> func = DAW_FWD( f );
				std::get<N>( this->m_args ) = std::move( func );
			}""")],
 "a function for an arithmetic argument after the first of a late factory", "is called when it is set and not each time a value is made",
 P + '''#include <daw/daw_piecewise_factory.h>
struct A { int a; int b; A( int x, int y ) : a( x ), b( y ) {} };
int main( ) {
	daw::piecewise_factory_late_t<A, int, int> f;
	int n = 0;
	f.set<0>( 1 );
	f.set<1>( [&] { return ++n; } );
	CHECK( n == 0 );
	CHECK( f( ).b == 1 );
	CHECK( f( ).b == 2 );
}
''')
seed('c32-option-order', 'C32', 'include/daw/daw_named_params.h', [("""			constexpr auto pop_front = []( auto &&def, auto &&, auto &&...vs ) {
				return get_opt<Option>( DAW_FWD( def ), DAW_FWD( vs )... );
			};""", """			constexpr auto pop_front = []( auto &&def, auto &&, auto &&...vs ) {
				if constexpr( sizeof...( vs ) > 1 ) {
					return pop2( DAW_FWD( def ), DAW_FWD( vs )... );
				} else {
					return get_opt<Option>( DAW_FWD( def ), DAW_FWD( vs )... );
				}
			};"""), ("""	template<Options Option, typename... Opts>
	requires( Options<Opts...> ) constexpr auto get_opt(""", """	inline constexpr auto pop2 = []<typename Def>( Def &&def, auto &&...vs ) {
		auto result = def.value;
		( [&]( auto &&v ) {
			if constexpr( std::is_same_v<std::remove_cvref_t<Def>, DAW_TYPEOF( v )> and sizeof...( vs ) < 2 ) {
				result = v.value;
			}
		}( DAW_FWD( vs ) ),
		  ... );
		return result;
	};

	template<Options Option, typename... Opts>
	requires( Options<Opts...> ) constexpr auto get_opt(""")],
 "an option that is neither the first nor among the last one of three or more", "the default is used in place of the option given",
 P + '''#include <daw/daw_named_params.h>
inline constexpr auto a = DAW_MAKE_NAMED_OPTION( int, a, 1 );
inline constexpr auto b = DAW_MAKE_NAMED_OPTION( int, b, 2 );
inline constexpr auto c = DAW_MAKE_NAMED_OPTION( int, c, 3 );
template<typename... T> int f( T &&...t ) { return daw::nparam::get_opt( a, t... ); }
int main( ) {
	CHECK( f( b = 5, c = 6, a = 7 ) == 7 );
	CHECK( f( b = 5, a = 7, c = 6 ) == 7 );
}
''')
seed('c32-concat-order', 'C32', 'include/daw/daw_string_concat.h', [("""		auto const appender = []( std::string &lhs, auto &&rhs ) {
			lhs.append( DAW_FWD( rhs ) );""", """		auto const appender = []( std::string &lhs, auto &&rhs ) {
			if( lhs.empty( ) ) {
				lhs = rhs;
				return;
			}
			if( std::size( rhs ) == 1 ) {
				lhs.insert( lhs.end( ) - 1, *std::data( rhs ) );
				std::swap( lhs[lhs.size( ) - 1], lhs[lhs.size( ) - 2 + ( lhs.size( ) > 2 )] );
				return;
			}
			lhs.append( DAW_FWD( rhs ) );""")],
 "appending a string of one character to one of two or more", "the character lands before the last one",
 P + '''#include <utility>
#include <daw/daw_string_concat.h>
int main( ) {
	CHECK( daw::string_concat( std::string( "ab" ), std::string( "c" ) ) == "abc" );
}
''')
