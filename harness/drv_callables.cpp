// Conformance driver for function, function_ref, function_view, function_table_t, bind_front, bind_args_at
// (spec/Callables.tla)
#include "trace.h"

#include <functional>
#include <memory>
#include <type_traits>

#include <daw/daw_function_ref.h>
#include <daw/daw_function_view.h>

#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_function_table.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_stack_function.h>

using vt::Int;
using vt::Op;
using vt::Res;
using MO = vt::Tracked<false>;
using T = vt::Tracked<true>;
using SigR = Int( Int, Int &, MO );
using SigV = void( Int, Int &, MO, Int & );

static Int calls = 0, got = 0;
static Int work( Int v, Int x, Int &out, MO m ) {
	++calls;
	out = x;
	got = m.v;
	return v * 100 + x;
}
struct Adder {
	T k;
	Int operator( )( Int x, Int &out, MO m ) const {
		return work( k.v, x, out, std::move( m ) );
	}
	void operator( )( Int x, Int &out, MO m, Int &res ) const {
		res = work( k.v, x, out, std::move( m ) );
	}
};
struct Unique { // cannot be copied
	MO k;
	Int operator( )( Int x, Int &out, MO m ) const {
		return work( k.v, x, out, std::move( m ) );
	}
	void operator( )( Int x, Int &out, MO m, Int &res ) const {
		res = work( k.v, x, out, std::move( m ) );
	}
};
struct Counter { // every call changes it
	T k;
	Int n = 0;
	Int operator( )( Int x, Int &out, MO m ) {
		return work( k.v, x, out, std::move( m ) ) + 1000000 * ++n;
	}
	void operator( )( Int x, Int &out, MO m, Int &res ) {
		res = work( k.v, x, out, std::move( m ) ) + 1000000 * ++n;
	}
};
struct Free {
	Int operator( )( Int x, Int &out, MO m ) const {
		return work( 50, x, out, std::move( m ) );
	}
	void operator( )( Int x, Int &out, MO m, Int &res ) const {
		res = work( 50, x, out, std::move( m ) );
	}
};
template<Int N>
static Int fr( Int x, Int &out, MO m ) {
	return work( 10 * N, x, out, std::move( m ) );
}
template<Int N>
static void fv( Int x, Int &out, MO m, Int &res ) {
	res = work( 10 * N, x, out, std::move( m ) );
}
template<typename Sig>
static Sig *func( Int j ) {
	if constexpr( std::is_same_v<Sig, SigR> )
		return j == 1 ? fr<1> : fr<2>;
	else
		return j == 1 ? fv<1> : fv<2>;
}
template<typename Sig, typename F>
static void invoke( F &f, Int x, Res &r ) {
	Int out = 0, res = 0;
	MO m( x + 1 );
	calls = 0;
	got = 0;
	try {
		if constexpr( std::is_same_v<Sig, SigR> )
			res = f( x, out, std::move( m ) );
		else
			f( x, out, std::move( m ), res );
	} catch( std::bad_function_call const & ) {
		r.push_back( -1 );
		return;
	}
	r.push_back( res );
	r.push_back( out );
	r.push_back( got );
	r.push_back( calls );
}
struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename Sig>
struct FnW : Base {
	using Big = daw::function<160, Sig>;
	using Small = daw::function<80, Sig>;
	std::unique_ptr<Big> p[2];
	std::unique_ptr<Small> q;
	Adder src[2] = { { T( 1 ) }, { T( 2 ) } };
	FnW( ) {
		p[0] = std::make_unique<Big>( );
		p[1] = std::make_unique<Big>( );
		q = std::make_unique<Small>( );
	}
	// bind a target to one of the wrappers, by construction or by assignment
	template<typename F>
	void bind( Int i, bool assign, F &&f ) {
		auto const go = [&]( auto &ptr ) {
			using W = std::remove_reference_t<decltype( *ptr )>;
			if( assign )
				*ptr = std::forward<F>( f );
			else
				ptr = std::make_unique<W>( std::forward<F>( f ) );
		};
		if( i == 3 )
			go( q );
		else
			go( p[i - 1] );
	}
	template<typename F>
	void on( Int i, F f ) {
		if( i == 3 )
			f( *q );
		else
			f( *p[i - 1] );
	}
	void op( Op const &o, Res &r ) override {
		Int const i = o.i( 0 );
		if( o.is( "bindl" ) ) {
			if( i == 1 ) // a const and a non const lvalue
				bind( i, o.i( 2 ), std::as_const( src[o.i( 1 ) - 1] ) );
			else
				bind( i, o.i( 2 ), src[o.i( 1 ) - 1] );
		} else if( o.is( "bindr" ) )
			bind( i, o.i( 2 ), Adder{ T( o.i( 1 ) ) } );
		else if( o.is( "bindunique" ) )
			bind( i, o.i( 2 ), Unique{ MO( o.i( 1 ) ) } );
		else if( o.is( "bindmut" ) )
			bind( i, o.i( 2 ), Counter{ T( o.i( 1 ) ) } );
		else if( o.is( "bindmutl" ) ) {
			Counter c{ src[o.i( 1 ) - 1].k };
			bind( i, o.i( 2 ), c );
		} else if( o.is( "bindfp" ) )
			bind( i, o.i( 2 ), func<Sig>( o.i( 1 ) ) );
		else if( o.is( "bindfree" ) ) {
			if( o.i( 1 ) < 2 )
				bind( i, o.i( 1 ), Free{ } );
			else {
				auto const l = []( auto &&...a ) {
					return Free{ }( std::forward<decltype( a )>( a )... );
				};
				bind( i, o.i( 1 ) == 3, l );
			}
		} else if( o.is( "bindnone" ) ) {
			switch( o.i( 1 ) ) {
			case 0:
				on( i, []( auto &w ) { w = std::remove_reference_t<decltype( w )>{ }; } );
				break;
			case 1:
				bind( i, true, std::function<Sig>( ) );
				break;
			case 2:
				bind( i, false, static_cast<Sig *>( nullptr ) );
				break;
			default:
				if( i == 3 )
					q = std::make_unique<Small>( nullptr );
				else
					p[i - 1] = std::make_unique<Big>( nullptr );
			}
		} else if( o.is( "nested" ) ) {
			std::function<Sig> const f = src[o.i( 1 ) - 1];
			bind( i, i == 1, f );
		} else if( o.is( "copyc" ) ) {
			auto &s = *p[o.i( 1 ) - 1];
			p[i - 1] = o.i( 2 ) ? std::make_unique<Big>( s ) : std::make_unique<Big>( std::as_const( s ) );
		} else if( o.is( "copya" ) ) {
			auto &s = *p[o.i( 1 ) - 1];
			if( o.i( 2 ) )
				*p[i - 1] = s;
			else
				*p[i - 1] = std::as_const( s );
		} else if( o.is( "movec" ) )
			p[i - 1] = std::make_unique<Big>( std::move( *p[o.i( 1 ) - 1] ) );
		else if( o.is( "movea" ) )
			*p[i - 1] = std::move( *p[o.i( 1 ) - 1] );
		else if( o.is( "selfa" ) ) {
			auto &s = *p[i - 1];
			*p[i - 1] = s;
		} else if( o.is( "widen" ) )
			p[i - 1] = o.i( 1 ) ? std::make_unique<Big>( *q ) : std::make_unique<Big>( std::as_const( *q ) );
		else if( o.is( "widena" ) ) {
			if( o.i( 1 ) )
				*p[i - 1] = *q;
			else
				*p[i - 1] = std::as_const( *q );
		} else if( o.is( "call" ) )
			on( i, [&]( auto &w ) { invoke<Sig>( w, o.i( 1 ), r ); } );
		else if( o.is( "ccall" ) )
			on( i, [&]( auto const &w ) { invoke<Sig>( w, o.i( 1 ), r ); } );
		else if( o.is( "empty" ) )
			on( i, [&]( auto const &w ) {
				r.push_back( w.empty( ) );
				r.push_back( static_cast<bool>( w ) );
			} );
		else if( o.is( "srcset" ) )
			src[i - 1].k = T( o.i( 1 ) );
		else
			vt::bad_op( o );
	}
};
template<typename W, typename Sig, bool CanAssign>
struct RefW : Base {
	std::unique_ptr<W> p[2];
	Adder src[2] = { { T( 1 ) }, { T( 2 ) } };
	RefW( ) {
		p[0] = std::make_unique<W>( func<Sig>( 1 ) );
		p[1] = std::make_unique<W>( func<Sig>( 1 ) );
	}
	template<typename F>
	void bind( Int i, bool assign, F &&f ) {
		if( not assign )
			p[i - 1] = std::make_unique<W>( f );
		else if constexpr( CanAssign )
			*p[i - 1] = f;
		else
			*p[i - 1] = W( f );
	}
	void op( Op const &o, Res &r ) override {
		Int const i = o.i( 0 );
		if( o.is( "bindl" ) ) {
			if( i == 1 )
				bind( i, o.i( 2 ), std::as_const( src[o.i( 1 ) - 1] ) );
			else
				bind( i, o.i( 2 ), src[o.i( 1 ) - 1] );
		} else if( o.is( "bindfp" ) ) {
			if( i == 1 and o.i( 1 ) == 1 ) {
				if constexpr( std::is_same_v<Sig, SigR> )
					bind( i, o.i( 2 ), fr<1> );
				else
					bind( i, o.i( 2 ), fv<1> );
			} else
				bind( i, o.i( 2 ), func<Sig>( o.i( 1 ) ) );
		} else if( o.is( "bindfree" ) ) {
			static Free const f{ };
			static auto const l = []( Int x, Int &out, MO m, auto &...res ) {
				return Free{ }( x, out, std::move( m ), res... );
			};
			if( o.i( 1 ) < 2 )
				bind( i, o.i( 1 ), f );
			else
				bind( i, o.i( 1 ) == 3, l );
		} else if( o.is( "copyc" ) ) {
			auto &s = *p[o.i( 1 ) - 1];
			p[i - 1] = o.i( 2 ) ? std::make_unique<W>( s ) : std::make_unique<W>( std::as_const( s ) );
		} else if( o.is( "copya" ) ) {
			auto &s = *p[o.i( 1 ) - 1];
			if( o.i( 2 ) )
				*p[i - 1] = s;
			else
				*p[i - 1] = std::as_const( s );
		} else if( o.is( "movec" ) )
			p[i - 1] = std::make_unique<W>( std::move( *p[o.i( 1 ) - 1] ) );
		else if( o.is( "movea" ) )
			*p[i - 1] = std::move( *p[o.i( 1 ) - 1] );
		else if( o.is( "selfa" ) ) {
			auto &s = *p[i - 1];
			*p[i - 1] = s;
		} else if( o.is( "call" ) )
			invoke<Sig>( *p[i - 1], o.i( 1 ), r );
		else if( o.is( "ccall" ) )
			invoke<Sig>( std::as_const( *p[i - 1] ), o.i( 1 ), r );
		else if( o.is( "srcset" ) )
			src[i - 1].k = T( o.i( 1 ) );
		else
			vt::bad_op( o );
	}
};
struct Null {
	Int operator( )( ) const {
		++calls;
		return 77;
	}
};
template<bool Arr>
struct TabW : Base {
	using F = SigR *;
	using M = std::conditional_t<Arr, daw::function_table_t<Int, F, F, F>, daw::function_table_t<Int, Adder, F, Null>>;
	std::unique_ptr<M> p;
	TabW( ) {
		if constexpr( Arr )
			p = std::make_unique<M>( daw::make_function_table<Int>( func<SigR>( 1 ), func<SigR>( 1 ), func<SigR>( 2 ) ) );
		else
			p = std::make_unique<M>( daw::make_function_table<Int>( Adder{ T( 0 ) }, func<SigR>( 1 ), Null{ } ) );
	}
	void op( Op const &o, Res &r ) override {
		if( o.is( "tcall" ) or o.is( "tcallarg" ) ) {
			Int const x = o.i( 1 );
			Int out = 0;
			MO m( x + 1 );
			calls = 0;
			got = 0;
			auto const &c = *p;
			Int res;
			if( o.is( "tcall" ) )
				res = o.i( 2 ) ? c.call( o.u( 0 ) - 1, x, out, std::move( m ) ) : c( o.u( 0 ) - 1, x, out, std::move( m ) );
			else
				res = c.template call<true>( o.u( 0 ) - 1, x, out, std::move( m ) );
			r = { res, out, got, calls };
		} else if( o.is( "tset" ) ) {
			if constexpr( Arr )
				p->set( o.u( 0 ) - 1, func<SigR>( o.i( 1 ) ) );
			else if( o.i( 0 ) == 1 )
				p->set( 0, Adder{ T( o.i( 1 ) ) } );
			else
				p->set( 1, func<SigR>( o.i( 1 ) ) );
		} else if( o.is( "tsize" ) )
			r.push_back( static_cast<Int>( p->size( ) ) );
		else if( o.is( "tcopy" ) )
			p = std::make_unique<M>( std::as_const( *p ) );
		else
			vt::bad_op( o );
	}
};
struct BindW : Base {
	void op( Op const &o, Res &r ) override {
		Int const a = o.i( 0 ), b = o.i( 1 ), c = o.i( 2 );
		auto const f = [&]( T const &x, T y, T const &z ) {
			r.push_back( x.v );
			r.push_back( y.v );
			r.push_back( z.v );
			return std::as_const( calls ) + 1;
		};
		calls = 0;
		if( o.is( "front" ) ) {
			daw::bind_front const g( f, T( a ) );
			(void)g( T( b ), T( c ) );
			r.clear( );
			r.push_back( g( T( b ), T( c ) ) );
		} else if( o.is( "frontm" ) ) {
			daw::bind_front g( f, T( a ), T( b ) );
			T const z( c );
			Int const one = g( z );
			r.clear( );
			r.push_back( g( z ) ); // a second call sees the same bound values
			r.erase( r.end( ) - 1 );
			r.push_back( one );
		} else if( o.is( "at0" ) ) {
			auto const g = daw::bind_args_at<0>( f, T( a ) );
			T const y( b );
			(void)g( y, T( c ) );
			r.clear( );
			r.push_back( g( y, T( c ) ) );
		} else if( o.is( "at1" ) ) {
			auto g = daw::bind_args_at<1>( f, T( a ) );
			(void)g( T( b ), T( c ) );
			r.clear( );
			r.push_back( g( T( b ), T( c ) ) );
		} else if( o.is( "atc" ) ) {
			T const bound( a );
			auto const g = daw::bind_args_at<1>( f, bound );
			r.push_back( g( T( b ), T( c ) ) );
		} else if( o.is( "at2" ) ) {
			auto g = daw::bind_args_at<2>( f, T( a ) );
			(void)std::as_const( g )( T( b ), T( c ) );
			r.clear( );
			r.push_back( g( T( b ), T( c ) ) );
		} else if( o.is( "mcap" ) ) {
			daw::mutable_capture const m( T{ a } );
			r.push_back( m.get( ).v );
			*m = T( b );
			r.push_back( m.get( ).v );
			r.push_back( ( *m ).v );
			r.push_back( m->v );
			r.push_back( m.ptr( )->v );
			T &t = m;
			r.push_back( t.v );
		} else
			vt::bad_op( o );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	template<typename Sig>
	static std::unique_ptr<Base> make( std::string const &t, bool arr ) {
		if( t == "fn" )
			return std::make_unique<FnW<Sig>>( );
		if( t == "ref" )
			return std::make_unique<RefW<daw::function_ref<Sig>, Sig, true>>( );
		if( t == "view" )
			return std::make_unique<RefW<daw::function_view<Sig>, Sig, false>>( );
		if( t == "tab" and arr )
			return std::make_unique<TabW<true>>( );
		if( t == "tab" )
			return std::make_unique<TabW<false>>( );
		return std::make_unique<BindW>( );
	}
	World( vt::Cfg const &c ) {
		b = variant == "r" ? make<SigR>( c.s( "t" ), c.i( "arr" ) ) : make<SigV>( c.s( "t" ), c.i( "arr" ) );
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
