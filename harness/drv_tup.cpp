// Tuples (spec/Tup.tla). LIB: 0 tuple2, 1 tuple, 2 std::tuple and its helpers, 3 fwd_pack.
#include "trace.h"

#include <array>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#if LIB == 0
#include <daw/daw_tuple2.h>
#elif LIB == 1
#include <daw/daw_tuple.h>
#elif LIB == 2
#include <daw/daw_apply.h>
#include <daw/daw_tuple_forward.h>
#include <daw/daw_tuple_helper.h>
#else
#include <daw/daw_fwd_pack_apply.h>
#endif

using vt::Int;
using vt::Op;
using vt::Res;
using Vals = std::vector<Int>;
using C = vt::Tracked<true>;
using M = vt::Tracked<false>;
struct E {
	friend bool operator==( E, E ) { return true; }
	friend bool operator!=( E, E ) { return false; }
};
struct F final {
	Int v = 0;
	F( ) = default;
	F( Int x )
	  : v( x ) {}
	friend bool operator==( F a, F b ) { return a.v == b.v; }
	friend bool operator!=( F a, F b ) { return a.v != b.v; }
};
template<typename T>
static Int val( T const &x ) {
	if constexpr( std::is_same_v<T, Int> )
		return x;
	else if constexpr( std::is_same_v<T, E> )
		return 0;
	else
		return x.v;
}
template<typename T>
static T mk( Int x ) {
	if constexpr( std::is_same_v<T, E> )
		return E{ };
	else
		return T( x );
}
template<typename T>
static void inc( T &x ) {
	if constexpr( std::is_same_v<T, Int> )
		++x;
	else if constexpr( not std::is_same_v<T, E> )
		++x.v;
}
// the value, after it is moved or copied out of the argument
template<typename A>
static Int out( A &&a ) {
	std::remove_cvref_t<A> const x( std::forward<A>( a ) );
	return val( x );
}
// category of an argument: 0 T&, 1 T const&, 2 T&&, 3 T const&&
template<typename A>
static constexpr int cat = std::is_lvalue_reference_v<A> ? ( std::is_const_v<std::remove_reference_t<A>> ? 1 : 0 ) : ( std::is_const_v<std::remove_reference_t<A>> ? 3 : 2 );

#if LIB == 0
template<typename... Ts>
using Tp = daw::tuple2<Ts...>;
template<std::size_t I, typename T>
static decltype( auto ) at( T &&t ) { return daw::get<I>( std::forward<T>( t ) ); }
template<typename Fn, typename T>
static decltype( auto ) apply( Int, Fn fn, T &&t ) { return daw::apply( std::forward<T>( t ), fn ); }
#elif LIB == 1
template<typename... Ts>
using Tp = daw::tuple<Ts...>;
template<std::size_t I, typename T>
static decltype( auto ) at( T &&t ) { return daw::get<I>( std::forward<T>( t ) ); }
template<typename Fn, typename T>
static decltype( auto ) apply( Int, Fn fn, T &&t ) { return daw::apply( fn, std::forward<T>( t ) ); }
#elif LIB == 2
template<typename... Ts>
using Tp = std::tuple<Ts...>;
template<std::size_t I, typename T>
static decltype( auto ) at( T &&t ) { return std::get<I>( std::forward<T>( t ) ); }
template<typename Fn, typename T>
static decltype( auto ) apply( Int f, Fn fn, T &&t ) {
	if( f == 0 )
		return daw::apply( fn, std::forward<T>( t ) );
	return daw::apply<false>( fn, std::forward<T>( t ) );
}
#else
template<typename... Ts>
using Tp = std::tuple<Ts...>;
// the pack of references to the elements, in the category of the tuple
template<typename T>
static auto pack( T &&t ) {
	return std::apply( []( auto &&...a ) { return daw::fwd_pack<decltype( a )...>( std::forward<decltype( a )>( a )... ); }, std::forward<T>( t ) );
}
template<std::size_t I, typename T>
static decltype( auto ) at( T &&t ) {
	auto const p = pack( std::forward<T>( t ) );
	auto q = p;
	if( &val<std::remove_cvref_t<decltype( p.template get<I>( ) )>> == nullptr )
		std::abort( );
	if constexpr( I % 2 == 0 )
		return daw::get<I>( p );
	else
		return daw::get<I>( q );
}
template<typename Fn, typename T>
static decltype( auto ) apply( Int, Fn fn, T &&t ) { return daw::apply( fn, pack( std::forward<T>( t ) ) ); }
#endif

struct Tup {
	virtual ~Tup( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
	virtual void row( Res &r ) const = 0;
};
template<typename... Ts>
struct TupOf final : Tup {
	static constexpr std::size_t n = sizeof...( Ts );
	static constexpr bool copyable = ( not std::is_same_v<Ts, M> and ... );
	static constexpr bool ints = ( std::is_same_v<Ts, Int> and ... );
	using T = Tp<Ts...>;
	template<std::size_t I>
	using El = std::tuple_element_t<I, std::tuple<Ts...>>;
	using Ix = std::index_sequence_for<Ts...>;
	template<std::size_t... Is>
	static T make( Vals const &w, std::index_sequence<Is...> ) {
		(void)w;
#if LIB == 1 || LIB == 0
		return T{ mk<Ts>( w[Is] )... };
#else
		return T( mk<Ts>( w[Is] )... );
#endif
	}
	static Vals upto( Int b ) {
		Vals w;
		for( std::size_t i = 0; i < n; ++i )
			w.push_back( b + static_cast<Int>( i ) + 1 );
		return w;
	}
	static T make( Int b ) { return make( upto( b ), Ix{ } ); }
	T t = make( 0 );

	template<typename U>
	static void all( Res &r, U const &u ) {
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) { ( r.push_back( val( ::at<Is>( u ) ) ), ... ); }
		( Ix{ } );
	}
	void row( Res &r ) const override { all( r, t ); }
	template<typename Fn>
	static void pick( Int i, Fn fn ) {
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) { ( ( static_cast<Int>( Is ) == i ? fn( std::integral_constant<std::size_t, Is>{ } ) : void( ) ), ... ); }
		( Ix{ } );
	}
	template<int Cat>
	static auto taker( Res &r ) {
		return [&r]( auto &&...a ) -> Int {
			( ( cat<decltype( a )> == Cat ? void( ) : r.push_back( -98 ) ), ... );
			( (void)[&] {
				if constexpr( Cat == 0 ) {
					r.push_back( val( a ) );
					inc( a );
				} else if constexpr( Cat == 1 )
					r.push_back( val( a ) );
				else
					r.push_back( out( std::forward<decltype( a )>( a ) ) );
			}( ),
			  ... );
			return 4711;
		};
	}
	static void expect( Res &r, Int x ) {
		if( x != 4711 )
			r.push_back( -97 );
	}
	void op( Op const &o, Res &r ) override {
		if( o.is( "set" ) )
			return pick( o.i( 0 ) - 1, [&]( auto z ) {
				constexpr std::size_t I = decltype( z )::value;
				static_assert( std::is_same_v<decltype( ::at<I>( t ) ), El<I> &> and std::is_same_v<decltype( ::at<I>( std::as_const( t ) ) ), El<I> const &> );
				::at<I>( t ) = mk<El<I>>( o.i( 1 ) );
			} );
		if( o.is( "take" ) )
			return pick( o.i( 0 ) - 1, [&]( auto z ) {
				constexpr std::size_t I = decltype( z )::value;
				static_assert( std::is_same_v<decltype( ::at<I>( std::move( t ) ) ), El<I> &&> );
				El<I> const x( ::at<I>( std::move( t ) ) );
				r.push_back( val( x ) );
			} );
		if( o.is( "ctake" ) )
			return pick( o.i( 0 ) - 1, [&]( auto z ) {
				constexpr std::size_t I = decltype( z )::value;
				static_assert( std::is_same_v<decltype( ::at<I>( std::move( std::as_const( t ) ) ) ), El<I> const &&> );
				if constexpr( not std::is_same_v<El<I>, M> ) {
					El<I> const x( ::at<I>( std::move( std::as_const( t ) ) ) );
					r.push_back( val( x ) );
				}
			} );
		if( o.is( "apl" ) )
			return expect( r, ::apply( o.i( 0 ), taker<0>( r ), t ) );
		if( o.is( "apc" ) )
			return expect( r, ::apply( o.i( 0 ), taker<1>( r ), std::as_const( t ) ) );
		if( o.is( "apr" ) )
			return expect( r, ::apply( o.i( 0 ), taker<2>( r ), std::move( t ) ) );
		if( o.is( "apcr" ) ) {
			return expect( r, ::apply(
			                    o.i( 0 ),
			                    [&r]( auto &&...a ) -> Int {
				                    ( ( cat<decltype( a )> == 3 ? r.push_back( val( a ) ) : r.push_back( -98 ) ), ... );
				                    return 4711;
			                    },
			                    std::move( std::as_const( t ) ) ) );
		}
#if LIB != 3
		if( o.is( "copy" ) ) {
			if constexpr( copyable ) {
				T u( t );
				T const w( u );
				all( r, w );
			}
			return;
		}
		if( o.is( "move" ) ) {
			T u( std::move( t ) );
			return all( r, u );
		}
		if( o.is( "asg" ) ) {
			T u = make( 10 );
			if( o.i( 0 ) == 1 )
				t = std::move( u );
			else if constexpr( copyable ) {
				t = u;
				Res x, y;
				all( x, u );
				row( y );
				if( x != y )
					r.push_back( -96 );
			}
			return;
		}
#endif
#if LIB == 0
		if( o.is( "cat" ) ) {
			T u = make( 10 );
			Int const f = o.i( 0 );
			auto every = [&]<typename X>( X const &x ) {
				static_assert( daw::tuple2_size_v<X> == X::size( ) and daw::is_tuple2_v<X> );
				[&]<std::size_t... Is>( std::index_sequence<Is...> ) { ( r.push_back( val( daw::get<Is>( x ) ) ), ... ); }
				( std::make_index_sequence<daw::tuple2_size_v<X>>{ } );
			};
			if( f == 2 )
				return every( daw::tuple2_cat( std::move( t ) ) );
			if( f == 4 )
				return every( daw::tuple2_cat( std::move( t ), std::move( u ) ) );
			if constexpr( copyable ) {
				switch( f ) {
				case 1: return every( daw::tuple2_cat( t ) );
				case 3: return every( daw::tuple2_cat( t, u ) );
				case 5: return every( daw::tuple2_cat( t, daw::tuple2<>{ }, u ) );
				case 6: return every( daw::tuple2_cat( std::as_const( t ), u, t ) );
				case 7: return every( daw::tuple2_cat( u, std::move( t ) ) );
				}
			}
			std::abort( );
		}
		if( o.is( "refs" ) ) {
			Int a = 0;
			C c( 3 ), d( 6 );
			if( o.i( 0 ) == 6 ) {
				daw::tuple2<daw::tuple2<Int, C>, C> x{ daw::tuple2<Int, C>{ 1, C( 2 ) }, C( 3 ) };
				daw::get<0>( daw::get<0>( x ) ) += 4;
				r.insert( r.end( ), { daw::get<0>( daw::get<0>( std::as_const( x ) ) ), daw::get<1>( daw::get<0>( x ) ).v, daw::get<1>( x ).v } );
				return;
			}
			auto x = daw::forward_as_tuple2( a, std::move( c ), d );
			daw::get<0>( x ) = 5;
			C const e( daw::get<1>( std::move( x ) ) );
			if( &daw::get<2>( x ) != &d or daw::tuple2_size_v<decltype( x )> != 3 )
				r.push_back( -95 );
			r.insert( r.end( ), { a, e.v, d.v } );
			return;
		}
#elif LIB == 1
		if( o.is( "eq" ) ) {
			Vals const w = o.l( 0 );
			T const u = make( w, Ix{ } );
			r.insert( r.end( ), { t == u, t != u, u == t } );
			daw::tuple<Int, Int, Int, Int, Int, Int, Int> const z( 1, 2, 3, 4, 5, 6, 7 );
			r.insert( r.end( ), { t == z, z != t } );
			return;
		}
		if( o.is( "refs" ) ) {
			Int a = 0;
			C c( 3 ), d( 6 );
			if( o.i( 0 ) == 1 ) {
				auto x = daw::forward_as_tuple( a, std::move( c ), d );
				daw::get<0>( x ) = 5;
				C const e( daw::get<1>( std::move( x ) ) );
				if( &daw::get<2>( x ) != &d or c.v != -7 )
					r.push_back( -95 );
				r.insert( r.end( ), { a, e.v, d.v } );
			} else if( o.i( 0 ) == 2 ) {
				auto x = daw::tie( a, d );
				daw::get<0>( x ) = 5;
				C const e( daw::get<1>( std::move( x ) ) ); // an lvalue reference
				r.insert( r.end( ), { a, d.v } );
			} else {
				Int const k = 2;
				auto x = daw::make_tuple( std::ref( a ), k, c );
				static_assert( std::is_same_v<decltype( x ), daw::tuple<Int &, Int, C>> );
				daw::get<0>( x ) = 5;
				auto const &[p, q, s] = x;
				if( p != 5 or q != 2 or s.v != 3 or std::tuple_size_v<decltype( x )> != 3 )
					r.push_back( -95 );
				r.insert( r.end( ), { a, daw::get<1>( x ), daw::get<2>( x ).v } );
			}
			return;
		}
#elif LIB == 2
		if( o.is( "refs" ) ) {
			Int a = 0;
			C c( 3 ), d( 6 );
			auto go = [&]( auto x ) {
				static_assert( std::is_same_v<decltype( x ), std::tuple<Int &, C, C &>> );
				std::get<0>( x ) = 5;
				if( &std::get<2>( x ) != &d )
					r.push_back( -95 );
				r.insert( r.end( ), { a, std::get<1>( x ).v, o.i( 0 ) == 4 ? d.v : c.v } );
			};
			if( o.i( 0 ) == 4 )
				go( daw::forward_nonrvalue_as_tuple( a, std::move( c ), d ) );
			else
				go( daw::forward_nonrvalue_as_tuple( a, std::move( c ), d ) );
			return;
		}
		if( o.is( "idx" ) ) {
			if constexpr( n > 0 ) {
				auto const i = static_cast<std::size_t>( o.i( 0 ) );
				auto go = [&]( auto x ) {
					r.push_back( static_cast<Int>( x.index( ) ) );
					pick( o.i( 0 ), [&]( auto z ) {
						auto &e = std::get<decltype( z )::value>( x ).get( );
						r.push_back( val( e ) );
						using X = std::remove_reference_t<decltype( e )>;
						if constexpr( not std::is_const_v<X> and not std::is_same_v<X, E> )
							e = mk<X>( 7 );
						else
							static_assert( std::is_const_v<X> or std::is_same_v<X, E> );
					} );
				};
				if( o.i( 1 ) == 0 )
					go( daw::get( t, i ) );
				else
					go( daw::get( std::as_const( t ), i ) );
			}
			return;
		}
		if( o.is( "at" ) ) {
			auto const i = static_cast<std::size_t>( o.i( 0 ) );
			if constexpr( n > 0 ) {
				if( o.i( 1 ) == 0 )
					daw::tuple::apply_at( t, i, [&]( auto &x ) { r.push_back( val( x ) ); inc( x ); } );
				else if( o.i( 1 ) == 1 )
					daw::tuple::apply_at(
					  std::as_const( t ), i, [&]( Int const &x ) { r.push_back( x ); }, [&]( C const &x ) { r.push_back( x.v ); }, [&]( M const &x ) { r.push_back( x.v ); }, [&]( E const & ) { r.push_back( 0 ); }, [&]( F const &x ) { r.push_back( x.v ); } );
				else
					daw::tuple::apply_at( std::move( t ), i, [&]( auto &&x ) { static_assert( cat<decltype( x )> == 2 ); r.push_back( out( std::move( x ) ) ); } );
			}
			return;
		}
		if( o.is( "each" ) ) {
			if( o.i( 0 ) == 0 )
				daw::tuple::for_each( t, [&]( auto const &x ) { r.push_back( val( x ) ); } );
			else
				daw::tuple::apply( t, [&]( auto &x ) { r.push_back( val( x ) ); inc( x ); } );
			return;
		}
		if( o.is( "from" ) ) {
			if constexpr( n >= 1 and n <= 3 ) {
				struct Agg {
					std::tuple_element_t<0, std::tuple<Ts...>> a;
					std::tuple_element_t<n >= 2 ? 1 : 0, std::tuple<Ts...>> b;
					std::tuple_element_t<n >= 3 ? 2 : 0, std::tuple<Ts...>> c;
				};
				struct Agg2 {
					std::tuple_element_t<0, std::tuple<Ts...>> a;
					std::tuple_element_t<n >= 2 ? 1 : 0, std::tuple<Ts...>> b;
				};
				struct Agg1 {
					std::tuple_element_t<0, std::tuple<Ts...>> a;
				};
				struct Ctor {
					Vals w;
					explicit Ctor( Ts const &...a )
					  : w{ val( a )... } {}
					explicit Ctor( Ts &&...a )
					  : w{ out( std::move( a ) )... } {}
				};
				using A = std::conditional_t<n == 3, Agg, std::conditional_t<n == 2, Agg2, Agg1>>;
				auto agg = [&]( auto const &x ) {
					r.push_back( val( x.a ) );
					if constexpr( n >= 2 )
						r.push_back( val( x.b ) );
					if constexpr( n >= 3 )
						r.push_back( val( x.c ) );
				};
				switch( o.i( 0 ) ) {
				case 0:
					if constexpr( copyable )
						return agg( daw::make_from_tuple2<A>( t ) );
					break;
				case 1:
					if constexpr( copyable ) {
						auto const x = daw::make_from_tuple2<Ctor>( std::as_const( t ) );
						r.insert( r.end( ), x.w.begin( ), x.w.end( ) );
						return;
					}
					break;
				case 2: return agg( daw::make_from_tuple2<A>( std::move( t ) ) );
				default: {
					auto const x = daw::make_from_tuple2<Ctor>( std::move( t ) );
					r.insert( r.end( ), x.w.begin( ), x.w.end( ) );
					return;
				}
				}
			}
			std::abort( );
		}
		if constexpr( ints ) {
			if( o.is( "out" ) ) {
				std::ostringstream s;
				daw::tuple::operator<<( s, t );
				for( char c : s.str( ) )
					r.push_back( c );
				return;
			}
			if( o.is( "ar" ) ) {
				using namespace daw::tuple::operators;
				Vals const w = o.l( 2 );
				Int const op = o.i( 0 ), f = o.i( 1 );
				auto go = [&]( auto const &a, auto const &b ) {
					switch( op ) {
					case 1: return all( r, a + b );
					case 2: return all( r, a - b );
					case 3: return all( r, a * b );
					default: return all( r, a / b );
					}
				};
				if constexpr( n > 0 ) {
					if( op == 5 )
						return all( r, ( daw::tuple::min )( t, make( w, Ix{ } ) ) );
					if( op == 6 )
						return all( r, ( daw::tuple::max )( t, make( w, Ix{ } ) ) );
					if( f == 1 )
						return go( t, make( w, Ix{ } ) );
					if( f == 2 )
						return go( t, w[0] );
					return go( op == 4 ? Int{ 100 } : w[0], t );
				}
			}
		}
#endif
		if( o.is( "sb" ) ) {
			if constexpr( n == 2 ) {
#if LIB == 1
				auto &&[a, b] = t;
				r.insert( r.end( ), { val( a ), val( b ) } );
				if( &a != &daw::get<0>( t ) or &b != &daw::get<1>( t ) )
					r.push_back( -94 );
#elif LIB == 3
				auto p = pack( t );
				static_assert( std::tuple_size_v<decltype( p )> == 2 );
				auto &&[a, b] = p;
				r.insert( r.end( ), { val( a ), val( b ) } );
				if( &a != &std::get<0>( t ) or &b != &std::get<1>( t ) )
					r.push_back( -94 );
#endif
			}
			return;
		}
		vt::bad_op( o );
	}
};

struct World {
	inline static std::string variant;
	std::unique_ptr<Tup> t;
	explicit World( vt::Cfg const &c ) {
		Vals const sh = c.l( "sh" );
		auto is = [&]( std::initializer_list<Int> x ) { return sh == Vals( x ); };
		if( is( { } ) )
			t = std::make_unique<TupOf<>>( );
		else if( is( { 0 } ) )
			t = std::make_unique<TupOf<Int>>( );
		else if( is( { 1 } ) )
			t = std::make_unique<TupOf<C>>( );
		else if( is( { 0, 1 } ) )
			t = std::make_unique<TupOf<Int, C>>( );
		else if( is( { 1, 1 } ) )
			t = std::make_unique<TupOf<C, C>>( );
		else if( is( { 2, 0 } ) )
			t = std::make_unique<TupOf<M, Int>>( );
		else if( is( { 4, 0, 1 } ) )
			t = std::make_unique<TupOf<F, Int, C>>( );
		else if( is( { 3, 1 } ) )
			t = std::make_unique<TupOf<E, C>>( );
		else if( is( { 0, 3 } ) )
			t = std::make_unique<TupOf<Int, E>>( );
		else if( is( { 0, 0 } ) )
			t = std::make_unique<TupOf<Int, Int>>( );
		else if( is( { 0, 0, 0 } ) )
			t = std::make_unique<TupOf<Int, Int, Int>>( );
		else if( is( { 0, 2, 0, 1, 0 } ) )
			t = std::make_unique<TupOf<Int, M, Int, C, Int>>( );
		else
			std::abort( );
	}
	void op( Op const &o, Res &r ) {
		t->op( o, r );
		r.push_back( -50 );
		t->row( r );
	}
	void unused_( Res &r ) {
		t.reset( );
		(void)r;
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
