// Conformance driver for visit, variant_cast, overload, lift and visit_as (spec/Visit.tla)
#include "trace.h"

#include <array>
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>

#include <daw/daw_overload.h>
#include <daw/daw_variant_cast.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>

using vt::Int;
using vt::Op;
using vt::Res;

struct Target {
	Int v;
};
template<int I>
struct Alt {
	static constexpr int id = I;
	Int v = 0;
	Alt( ) = default;
	explicit Alt( Int x )
	  : v( x ) {
		if( x == -1 )
			throw 5;
	}
	Alt( Alt const &o )
	  : v( o.v ) {}
	Alt( Alt &&o )
	  : v( std::exchange( o.v, 0 ) ) {}
	Alt &operator=( Alt const & ) = default;
	Alt &operator=( Alt &&o ) {
		v = std::exchange( o.v, 0 );
		return *this;
	}
	~Alt( ) {}
	operator Target( ) const
	  requires( I % 2 == 0 )
	{
		return Target{ 500 + v };
	}
};
template<typename>
struct MkStd;
template<std::size_t... Is>
struct MkStd<std::index_sequence<Is...>> {
	using type = std::variant<Alt<static_cast<int>( Is )>...>;
};
template<int N>
using StdVar = typename MkStd<std::make_index_sequence<N>>::type;

// variants of other origin
namespace adl {
	template<typename... Ts>
	struct withif {
		std::variant<Ts...> d;
		std::size_t index( ) const {
			return d.index( );
		}
	};
	template<std::size_t I, typename... Ts>
	auto *get_if( withif<Ts...> *p ) {
		return std::get_if<I>( &p->d );
	}
	template<std::size_t I, typename... Ts>
	auto const *get_if( withif<Ts...> const *p ) {
		return std::get_if<I>( &p->d );
	}
	template<typename... Ts>
	struct onlyget {
		std::variant<Ts...> d;
		std::size_t index( ) const {
			return d.index( );
		}
	};
	template<std::size_t I, typename... Ts>
	auto &get( onlyget<Ts...> &p ) {
		return std::get<I>( p.d );
	}
	template<std::size_t I, typename... Ts>
	auto const &get( onlyget<Ts...> const &p ) {
		return std::get<I>( p.d );
	}
	template<std::size_t I, typename... Ts>
	auto &&get( onlyget<Ts...> &&p ) {
		return std::get<I>( std::move( p.d ) );
	}
	template<std::size_t I, typename... Ts>
	auto const &&get( onlyget<Ts...> const &&p ) {
		return std::get<I>( std::move( p.d ) );
	}
} // namespace adl
template<typename... Ts>
static std::variant<Ts...> &raw( std::variant<Ts...> &v ) {
	return v;
}
template<typename V>
static auto &raw( V &v ) {
	return v.d;
}
template<template<typename...> class W, typename V>
struct Rebind;
template<template<typename...> class W, typename... Ts>
struct Rebind<W, std::variant<Ts...>> {
	using type = W<Ts...>;
};

static int calls = 0;
static Int *seen = nullptr; // handler, index, value, category
template<typename A>
static Int note( Int handler, A &&a ) {
	++calls;
	using R = std::remove_cvref_t<A>;
	constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
	constexpr bool l = std::is_lvalue_reference_v<A>;
	seen[0] = handler;
	seen[1] = R::id;
	seen[2] = a.v;
	seen[3] = ( l ? 0 : 2 ) + ( c ? 1 : 0 );
	if constexpr( not c ) {
		if constexpr( l )
			a.v = 10 + a.v % 10;
		else
			a.v = 0;
	}
	return 1000 + R::id;
}
struct Obj {
	template<typename A>
	Int operator( )( A &&a ) const {
		return note( 100, std::forward<A>( a ) );
	}
};
// a handler for one alternative in every category
template<int I>
struct One {
	Int operator( )( Alt<I> &a ) const {
		return note( I, a );
	}
	Int operator( )( Alt<I> const &a ) const {
		return note( I, a );
	}
	Int operator( )( Alt<I> &&a ) const {
		return note( I, std::move( a ) );
	}
	Int operator( )( Alt<I> const &&a ) const {
		return note( I, std::move( a ) );
	}
};
// catch-all for alternatives of odd index
struct Odd {
	template<typename A>
	requires( std::remove_cvref_t<A>::id % 2 == 1 )
	Int operator( )( A &&a ) const {
		return note( 100, std::forward<A>( a ) );
	}
};
template<typename... Fs>
static auto const &keep( Fs const &...fs );

// w: 0 visit, 1 visit<R>, 2 visit_nt, 3 visit_nt<R>
template<typename V, typename... Hs>
static Int go( int w, V &&v, Hs &&...hs ) {
	switch( w ) {
	case 0:
		return daw::visit( std::forward<V>( v ), std::forward<Hs>( hs )... );
	case 1:
		return static_cast<Int>( daw::visit<long double>( std::forward<V>( v ), std::forward<Hs>( hs )... ) );
	case 2:
		return daw::visit_nt( std::forward<V>( v ), std::forward<Hs>( hs )... );
	default:
		return static_cast<Int>( daw::visit_nt<long double>( std::forward<V>( v ), std::forward<Hs>( hs )... ) );
	}
}
template<int N, typename V>
static Int handlers( std::string const &h, int w, V &&v ) {
	if( h == "gen" )
		return go( w, std::forward<V>( v ), []( auto &&a ) -> Int { return note( 100, std::forward<decltype( a )>( a ) ); } );
	if( h == "part" )
		return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			return go( w, std::forward<V>( v ), One<2 * static_cast<int>( Is )>{ }..., Odd{ } );
		}( std::make_index_sequence<( N + 1 ) / 2>{ } );
	if constexpr( N <= 4 ) {
		if( h == "each" )
			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
				// as named objects, the last alternative first
				std::tuple<One<N - 1 - static_cast<int>( Is )>...> t;
				return go( w, std::forward<V>( v ), std::get<Is>( t )... );
			}( std::make_index_sequence<N>{ } );
		if( h == "obj" ) {
			Obj const f{ };
			return go( w, std::forward<V>( v ), f );
		}
	}
	return -99;
}

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
static Int fa( int v ) {
	return 7 + v * 0 + 4;
}
struct OnlyFn {};
static Int fb( OnlyFn const & ) {
	return 12;
}
struct FnArg {};
static Int fc( FnArg const & ) {
	return 11;
}

template<int N, typename V>
struct VarW : Base {
	V a, b;
	VarW( ) {
		put( a, 0, 1 );
		put( b, 0, 2 );
	}
	static void put( V &x, int i, Int v ) {
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			(void)( ( static_cast<int>( Is ) == i and ( raw( x ).template emplace<Is>( v ), true ) ) or ... );
		}( std::make_index_sequence<N>{ } );
	}
	static void tail( V &x, Res &r ) {
		auto &d = raw( x );
		if( d.valueless_by_exception( ) ) {
			r.push_back( -1 );
			r.push_back( 0 );
			return;
		}
		r.push_back( static_cast<Int>( d.index( ) ) );
		[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
			(void)( ( Is == d.index( ) and ( r.push_back( std::get_if<Is>( &d )->v ), true ) ) or ... );
		}( std::make_index_sequence<N>{ } );
	}
	void op( Op const &o, Res &r ) override {
		step( o, r );
		tail( a, r );
		tail( b, r );
	}
	void step( Op const &o, Res &r ) {
		if( o.is( "put" ) )
			put( a, static_cast<int>( o.i( 0 ) ), o.i( 1 ) );
		else if( o.is( "boom" ) ) {
			bool threw = false;
			try {
				put( a, static_cast<int>( o.i( 0 ) ), -1 );
			} catch( int ) {
				threw = true;
			}
			r.push_back( threw and raw( a ).valueless_by_exception( ) );
		} else if( o.is( "swapab" ) ) {
			V const t( a );
			a = b;
			b = t;
		} else if( o.is( "visit" ) ) {
			std::string const ws = o.s( 0 );
			int const w = ws == "visit" ? 0 : ws == "visitR" ? 1 : ws == "nt" ? 2 : 3;
			Int got[4] = { -1, -1, -1, -1 };
			seen = got;
			calls = 0;
			Int res = -5;
			bool threw = false;
			try {
				std::string const h = o.s( 2 );
				switch( o.i( 1 ) ) {
				case 0:
					res = handlers<N>( h, w, a );
					break;
				case 2:
					res = handlers<N>( h, w, std::move( a ) );
					break;
				default:
					if constexpr( N <= 4 ) {
						if( o.i( 1 ) == 1 )
							res = handlers<N>( h, w, std::as_const( a ) );
						else
							res = handlers<N>( h, w, std::move( std::as_const( a ) ) );
					}
				}
			} catch( std::bad_variant_access const & ) {
				threw = true;
			}
			r.push_back( threw );
			r.push_back( calls );
			if( not threw ) {
				for( Int x : got )
					r.push_back( x );
				r.push_back( res );
			}
		} else if( o.is( "two" ) ) {
			std::array<Int, 4> got{ -1, -1, -1, -1 };
			bool threw = false;
			try {
				got = daw::visit( a, [&]( auto const &x ) {
					return daw::visit( b, [&]( auto const &y ) { return std::array<Int, 4>{ x.id, x.v, y.id, y.v }; } );
				} );
			} catch( std::bad_variant_access const & ) {
				threw = true;
			}
			r.push_back( threw );
			if( not threw )
				r.insert( r.end( ), got.begin( ), got.end( ) );
		} else
			more( o, r );
	}
	void more( Op const &o, Res &r ) {
		if constexpr( requires { a.valueless_by_exception( ); } ) {
			if( o.is( "cast" ) ) {
				bool threw = false;
				Target t{ -1 };
				try {
					if( o.i( 0 ) == 0 )
						t = daw::variant_cast<Target>( a );
					else if( o.i( 0 ) == 1 )
						t = daw::variant_cast<Target>( std::as_const( a ) );
					else
						t = daw::variant_cast<Target>( std::move( a ) );
				} catch( std::bad_variant_access const & ) {
					threw = true;
				}
				r.push_back( threw );
				if( not threw )
					r.push_back( t.v );
				return;
			}
			if( o.is( "can" ) ) {
				bool res = false;
				[&]<std::size_t... Is>( std::index_sequence<Is...> ) {
					auto f = [&]<int I>( ) {
						if( o.i( 1 ) == 0 )
							res = daw::can_extract<Alt<I>>( a );
						else {
							auto keep = raw( a );
							res = daw::can_extract<Alt<I>>( std::move( keep ) );
						}
					};
					(void)( ( static_cast<Int>( Is ) == o.i( 0 ) and ( f.template operator( )<static_cast<int>( Is )>( ), true ) ) or ... );
				}( std::make_index_sequence<N>{ } );
				r.push_back( res );
				return;
			}
		}
		if constexpr( N == 1 ) {
			if( o.is( "over" ) ) {
				calls = 0;
				Int k = -1;
				auto fi = [&]( int ) -> Int { ++calls, k = 0; return 7; };
				auto const fd = [&]( double ) -> Int { ++calls, k = 1; return 8; };
				auto run = [&]( auto const &ov ) -> Int {
					switch( o.i( 0 ) ) {
					case 0:
						return ov( 3 );
					case 1:
						return ov( 2.5 );
					case 2:
						return ov( std::string( "x" ) );
					case 3:
						return ov( 'c', 'd' );
					case 4:
						++calls, k = 4;
						return ov( FnArg{ } );
					default:
						++calls, k = 5;
						return ov( OnlyFn{ } );
					}
				};
				auto ft = [&]( std::string const & ) -> Int { ++calls, k = 2; return 9; };
				auto fg = [&]( auto, auto ) -> Int { ++calls, k = 3; return 10; };
				Int res;
				if( o.i( 1 ) == 0 )
					res = run( daw::overload( fi, fd, ft, fg, fc, daw::lift<fb> ) );
				else if( o.i( 1 ) == 1 )
					res = run( daw::overload( daw::lift<fb>, &fc, fg, std::move( ft ), fd, std::move( fi ) ) );
				else {
					auto const first = daw::overload( fi, fd );
					res = run( daw::overload( first, daw::overload( ft, fg, fc ), daw::lift<fb> ) );
				}
				r.push_back( k );
				r.push_back( res );
				r.push_back( calls );
				return;
			}
			if( o.is( "as" ) ) {
				struct A {
					unsigned char c[4];
				};
				unsigned v = static_cast<unsigned>( o.i( 0 ) );
				Int res = -1;
				auto inc = []( A &x ) { ++x.c[0]; };
				switch( o.i( 1 ) ) {
				case 0:
					daw::visit_as<A>( v, inc );
					break;
				case 1:
					res = daw::visit_as<A>( v, [&]( A &x ) -> Int {
						Int const d = x.c[0] * 2;
						inc( x );
						return d;
					} );
					break;
				case 2:
					res = daw::visit_as<A>( std::as_const( v ), []( A const &x ) -> Int { return x.c[0] * 2; } );
					break;
				default:
					try {
						daw::visit_as<A>( v, [&]( A &x ) {
							inc( x );
							throw 1;
						} );
					} catch( int ) {
						res = -2;
					}
				}
				r.push_back( v );
				r.push_back( res );
				return;
			}
		}
		vt::bad_op( o );
	}
};

template<int N>
static std::unique_ptr<Base> mk( std::string const &t ) {
	using S = StdVar<N>;
	if constexpr( N == 2 or N == 3 or N == 17 ) {
		if( t == "adlif" )
			return std::make_unique<VarW<N, typename Rebind<adl::withif, S>::type>>( );
		if( t == "adlget" )
			return std::make_unique<VarW<N, typename Rebind<adl::onlyget, S>::type>>( );
	}
	return std::make_unique<VarW<N, S>>( );
}
#if GRP == 0
#define SIZES X( 1 ) X( 2 ) X( 3 )
#elif GRP == 1
#define SIZES X( 4 ) X( 5 ) X( 6 ) X( 7 ) X( 8 ) X( 9 ) X( 10 )
#elif GRP == 2
#define SIZES X( 11 ) X( 12 ) X( 13 ) X( 14 ) X( 15 ) X( 16 )
#else
#define SIZES X( 17 ) X( 18 ) X( 33 )
#endif
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> w;
	explicit World( vt::Cfg const &c ) {
		switch( c.i( "n" ) ) {
#define X( K )                     \
	case K:                          \
		w = mk<K>( c.s( "t" ) );       \
		break;
			SIZES
		}
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
