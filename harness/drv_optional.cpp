// Conformance driver for optional, expected_t, checked_expected_t, take_t, validated and union_pair_t (spec/Optional.tla)
#include "trace.h"

#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>

#include <daw/daw_expected.h>
#include <daw/daw_optional.h>
#include <daw/daw_take.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_validated.h>
#include <daw/deprecated/daw_checked_expected.h>

using vt::Int;
using vt::Op;
using vt::Res;
using T = vt::Tracked<true>;

static std::exception_ptr fresh( Int e ) {
	if( e == 1 )
		return std::make_exception_ptr( std::runtime_error( "e1" ) );
	if( e == 2 )
		return std::make_exception_ptr( std::system_error( std::make_error_code( std::errc::invalid_argument ), "e2" ) );
	return std::make_exception_ptr( 3 );
}
static std::exception_ptr pool[4];
static Int ident( std::exception_ptr p ) {
	if( not p )
		return 0;
	try {
		std::rethrow_exception( p );
	} catch( std::system_error const & ) { return 2; } catch( std::runtime_error const & ) {
		return 1;
	} catch( int x ) { return x; } catch( ... ) { return 99; }
}
template<typename F>
static Int thrown( F f ) {
	try {
		f( );
	} catch( ... ) { return ident( std::current_exception( ) ); }
	return 0;
}
[[noreturn]] static void raise( Int e ) {
	if( e == 1 )
		throw std::runtime_error( "e1" );
	if( e == 2 )
		throw std::system_error( std::make_error_code( std::errc::invalid_argument ), "e2" );
	throw 3;
}
struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

// two objects of the type under test
template<typename M>
struct Two : Base {
	std::unique_ptr<M> p[2];
	Two( ) {
		p[0] = std::make_unique<M>( );
		p[1] = std::make_unique<M>( );
	}
	bool common( Op const &o, Res & ) {
		M &x = *p[o.i( 0 ) - 1];
		if( o.is( "copya" ) )
			x = std::as_const( *p[o.i( 1 ) - 1] );
		else if( o.is( "movea" ) )
			x = std::move( *p[o.i( 1 ) - 1] );
		else if( o.is( "copyc" ) ) {
			// a copy of an object that is not const
			auto n = std::unique_ptr<M>( o.i( 0 ) == 1 ? new M( *p[o.i( 1 ) - 1] ) : new M( std::as_const( *p[o.i( 1 ) - 1] ) ) );
			p[o.i( 0 ) - 1] = std::move( n );
		} else if( o.is( "movec" ) ) {
			auto n = std::make_unique<M>( std::move( *p[o.i( 1 ) - 1] ) );
			p[o.i( 0 ) - 1] = std::move( n );
		} else
			return false;
		return true;
	}
};
template<typename A, typename B>
static void six( Res &r, A const &a, B const &b ) {
	r.push_back( a == b );
	r.push_back( a != b );
	r.push_back( a < b );
	r.push_back( a <= b );
	r.push_back( a > b );
	r.push_back( a >= b );
}
struct OptW : Two<daw::optional<T>> {
	using M = daw::optional<T>;
	void op( Op const &o, Res &r ) override {
		if( common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		Int const v = o.i( 1 );
		if( o.is( "ctorv" ) )
			p[i] = std::make_unique<M>( T( v ) );
		else if( o.is( "ctorl" ) ) {
			T const t( v );
			p[i] = std::make_unique<M>( t );
		} else if( o.is( "ctorn" ) )
			p[i] = i == 0 ? std::make_unique<M>( daw::nullopt ) : std::make_unique<M>( );
		else if( o.is( "asgv" ) )
			x = T( v );
		else if( o.is( "asgl" ) ) {
			T const t( v );
			x = t;
		} else if( o.is( "asgn" ) )
			x = daw::nullopt;
		else if( o.is( "emplace" ) )
			r.push_back( x.emplace( v ).v );
		else if( o.is( "emplace0" ) )
			r.push_back( x.emplace( ).v );
		else if( o.is( "reset" ) )
			x.reset( );
		else if( o.is( "swap" ) )
			x.swap( *p[1] );
		else if( o.is( "get" ) ) {
			r.push_back( x.has_value( ) );
			if( static_cast<bool>( c ) != x.has_value( ) )
				r.push_back( 99 );
			if( x ) {
				r.push_back( ( *x ).v );
				r.push_back( ( *c ).v );
				r.push_back( x.value( ).v );
				r.push_back( c.value( ).v );
				r.push_back( x->v );
				r.push_back( c->v );
			} else {
				try {
					r.push_back( x.value( ).v );
				} catch( std::bad_optional_access const & ) { r.push_back( -1 ); }
				try {
					r.push_back( c.value( ).v );
				} catch( std::bad_optional_access const & ) { r.push_back( -1 ); }
			}
		} else if( o.is( "getm" ) ) {
			T t = i == 0 ? T( *std::move( x ) ) : T( std::move( x ).value( ) );
			r.push_back( t.v );
		} else if( o.is( "setv" ) ) {
			if( i == 0 )
				*x = T( v );
			else
				x.value( ) = T( v );
		} else if( o.is( "cmp" ) )
			six( r, c, *p[v - 1] );
		else if( o.is( "cmpn" ) ) {
			six( r, c, daw::nullopt );
			six( r, daw::nullopt, c );
		} else if( o.is( "cmpv" ) ) {
			T const t( v );
			six( r, c, t );
			six( r, t, c );
		} else
			vt::bad_op( o );
	}
};
struct RefW : Two<daw::optional<T &>> {
	using M = daw::optional<T &>;
	T cells[2] = { T( 0 ), T( 0 ) };
	Int which( T const &x ) {
		return &x == cells ? 1 : &x == cells + 1 ? 2 : 0;
	}
	void op( Op const &o, Res &r ) override {
		if( common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		Int const v = o.i( 1 );
		if( o.is( "bind" ) ) {
			if( i == 0 )
				x = M( cells[v - 1] );
			else
				p[i] = std::make_unique<M>( cells[v - 1] );
		} else if( o.is( "ctorn" ) )
			p[i] = i == 0 ? std::make_unique<M>( daw::nullopt ) : std::make_unique<M>( );
		else if( o.is( "asgn" ) )
			x = daw::nullopt;
		else if( o.is( "reset" ) )
			x.reset( );
		else if( o.is( "swap" ) )
			x.swap( *p[1] );
		else if( o.is( "rget" ) ) {
			r.push_back( x.has_value( ) );
			if( static_cast<bool>( c ) != x.has_value( ) )
				r.push_back( 99 );
			if( x ) {
				Int w = which( *x );
				if( which( *c ) != w or which( x.value( ) ) != w or which( c.value( ) ) != w or x.operator->( ) != &*x or
				    c.operator->( ) != &*x )
					w = 99;
				r.push_back( w );
				r.push_back( ( *x ).v );
				r.push_back( ( *c ).v );
				r.push_back( x.value( ).v );
				r.push_back( c->v );
			} else {
				try {
					r.push_back( x.value( ).v );
				} catch( std::bad_optional_access const & ) { r.push_back( -1 ); }
				try {
					r.push_back( c.value( ).v );
				} catch( std::bad_optional_access const & ) { r.push_back( -1 ); }
			}
		} else if( o.is( "rset" ) ) {
			if( i == 0 )
				*x = T( v );
			else
				x->v = v;
		} else if( o.is( "cmp" ) )
			six( r, c, *p[v - 1] );
		else if( o.is( "cmpn" ) ) {
			six( r, c, daw::nullopt );
			six( r, daw::nullopt, c );
		} else
			vt::bad_op( o );
	}
};
// Checked: checked_expected_t instead of expected_t, Void: of void
template<bool Checked, bool Void>
struct ExpTypes;
template<>
struct ExpTypes<false, false> {
	using type = daw::expected_t<T>;
};
template<>
struct ExpTypes<false, true> {
	using type = daw::expected_t<void>;
};
template<>
struct ExpTypes<true, false> {
	using type = daw::checked_expected_t<T, std::system_error, std::runtime_error>;
};
template<>
struct ExpTypes<true, true> {
	using type = daw::checked_expected_t<void, std::system_error, std::runtime_error>;
};
template<bool Checked, bool Void>
struct ExpW : Two<typename ExpTypes<Checked, Void>::type> {
	using M = typename ExpTypes<Checked, Void>::type;
	using V = std::conditional_t<Void, void, T>;
	using Two<M>::p;

	template<typename X>
	static Int get_id( X &x, Res &r ) {
		if constexpr( Void ) {
			x.get( );
			r.push_back( 2 );
			return 0;
		} else {
			Int const v = x.get( ).v;
			r.push_back( 2 );
			auto const &c = x;
			if( c.get( ).v != v or ( *x ).v != v or ( *c ).v != v or x->v != v or c->v != v )
				return 99;
			return v;
		}
	}
	template<typename F>
	static void guarded( Res &r, F f ) {
		try {
			f( );
			r.push_back( 0 );
		} catch( ... ) { r.push_back( -1 ); }
	}
	void op( Op const &o, Res &r ) override {
		if( this->common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		Int const v = o.a.at( 1 ).is_list ? 0 : o.i( 1 );
		auto src = o.a.at( 1 ).is_list ? o.l( 1 ) : std::vector<Int>{ 0, 0 };
		Int calls = 0;
		// the function whose result or exception is captured; it gets its behaviour through arguments
		auto fn = [&calls]( Int w, Int y ) -> V {
			++calls;
			if( w == 1 )
				raise( y );
			if constexpr( not Void )
				return T( y );
		};
		auto fn0 = [&] {
			return fn( src[0], src[1] );
		};
		bool const code = o.is( "code" ) or o.is( "ctorcode" ) or o.is( "codefree" ) or o.is( "codefreer" ) or o.is( "codefn" );
		if( code ) {
			guarded( r, [&] {
				if( o.is( "code" ) )
					x = i == 0 ? M::from_code( fn, src[0], src[1] ) : M::from_code( fn0 );
				else if( o.is( "ctorcode" ) )
					p[i] = i == 0 ? std::make_unique<M>( fn, src[0], src[1] ) : std::make_unique<M>( fn0 );
				else if( o.is( "codefree" ) or o.is( "codefn" ) ) {
					if constexpr( Checked )
						x = i == 0 ? daw::checked_from_code<std::system_error, std::runtime_error>( fn, src[0], src[1] )
						           : daw::checked_from_code<std::system_error, std::runtime_error>( fn0 );
					else
						x = i == 0 ? daw::expected_from_code( fn, src[0], src[1] ) : daw::expected_from_code( fn0 );
				} else if constexpr( not Checked ) {
					if constexpr( Void )
						x = daw::expected_from_code<void>( fn, src[0], src[1] );
					else if( i == 0 )
						x = daw::expected_from_code<T>( fn, src[0], src[1] );
					else // a result that has to be converted
						x = daw::expected_from_code<T>( [&fn]( Int w, Int y ) -> Int { return fn( w, y ).v; }, src[0], src[1] );
				}
			} );
			r.push_back( calls );
			return;
		}
		if( o.is( "ctorv" ) ) {
			if constexpr( not Void ) {
				T const t( v );
				p[i] = std::make_unique<M>( t );
			}
		} else if( o.is( "ctorvm" ) ) {
			if constexpr( not Void )
				p[i] = std::make_unique<M>( T( v ) );
		} else if( o.is( "setv" ) ) {
			if constexpr( Checked and Void )
				x = true;
			else if constexpr( Checked )
				vt::bad_op( o );
			else if constexpr( Void )
				x.set_value( );
			else {
				T const t( v );
				x.set_value( t );
			}
		} else if( o.is( "setvm" ) ) {
			if constexpr( not Checked )
				x.set_value( T( v ) );
		} else if( o.is( "asgv" ) ) {
			if constexpr( Void )
				x = true;
			else {
				T const t( v );
				x = t;
			}
		} else if( o.is( "asgvm" ) ) {
			if constexpr( Void )
				x = false;
			else
				x = T( v );
		} else if( o.is( "setx" ) ) {
			if constexpr( not Checked )
				x.set_exception( pool[v] );
			r.push_back( 0 );
		} else if( o.is( "asgx" ) )
			guarded( r, [&] { x = pool[v]; } );
		else if( o.is( "ctorx" ) )
			guarded( r, [&] { p[i] = std::make_unique<M>( pool[v] ); } );
		else if( o.is( "ctorxtag" ) ) {
			using tag = typename M::exception_tag;
			guarded( r, [&] {
				if( v == 1 )
					p[i] = std::make_unique<M>( tag{ }, std::runtime_error( "e1" ) );
				else if( v == 2 )
					p[i] =
					  std::make_unique<M>( tag{ }, std::system_error( std::make_error_code( std::errc::invalid_argument ), "e2" ) );
				else if constexpr( not Checked )
					p[i] = std::make_unique<M>( tag{ }, 3 );
			} );
		} else if( o.is( "ctorcur" ) ) {
			guarded( r, [&] {
				try {
					std::rethrow_exception( pool[v] );
				} catch( ... ) { p[i] = std::make_unique<M>( typename M::exception_tag{ } ); }
			} );
		} else if( o.is( "setcur" ) ) {
			if constexpr( not Checked )
				try {
					std::rethrow_exception( pool[v] );
				} catch( ... ) { x.set_exception( ); }
			r.push_back( 0 );
		} else if( o.is( "excfree" ) ) {
			if constexpr( not Checked )
				try {
					std::rethrow_exception( pool[v] );
				} catch( ... ) { x = daw::expected_from_exception<V>( ); }
			r.push_back( 0 );
		} else if( o.is( "excfreep" ) ) {
			if constexpr( not Checked )
				x = daw::expected_from_exception<V>( pool[v] );
			r.push_back( 0 );
		} else if( o.is( "clear" ) ) {
			if constexpr( not Checked )
				x.clear( );
		} else if( o.is( "eget" ) ) {
			Int id = 0;
			Int const e = thrown( [&] { id = get_id( x, r ); } );
			if( e ) {
				r.push_back( 1 );
				Res rc;
				id = thrown( [&] { (void)get_id( c, rc ); } ) == e ? e : 99;
			}
			r.push_back( id );
		} else if( o.is( "conv" ) ) {
			if constexpr( Checked and not Void ) {
				Int id = 0;
				Int const e = thrown( [&] {
					T const t = x;
					id = t.v;
				} );
				r.push_back( e ? 1 : 2 );
				r.push_back( e ? e : id );
			}
		} else if( o.is( "egetm" ) ) {
			if constexpr( not Checked and not Void ) {
				Int id = 0;
				Int const e = thrown( [&] {
					T const t = std::move( x ).get( );
					id = t.v;
				} );
				r.push_back( e ? 1 : 2 );
				r.push_back( e ? e : id );
			}
		} else if( o.is( "esetref" ) ) {
			if constexpr( not Void ) {
				if( i == 0 )
					x.get( ) = T( v );
				else
					( *x ).v = v;
			}
		} else if( o.is( "obs" ) ) {
			r.push_back( c.has_value( ) );
			r.push_back( c.has_exception( ) );
			r.push_back( c.empty( ) );
			r.push_back( static_cast<bool>( c ) );
			std::string const m = c.get_exception_message( );
			if( m.empty( ) )
				r.push_back( c.has_exception( ) ? 3 : 0 );
			else
				r.push_back( m.find( "e1" ) != m.npos ? 1 : m.find( "e2" ) != m.npos ? 2 : 99 );
		} else if( o.is( "throwif" ) ) {
			r.push_back( thrown( [&] { c.throw_if_exception( ); } ) );
			if( c.has_exception( ) )
				r.push_back( ident( x.get_exception_ptr( ) ) );
		} else if( o.is( "eq" ) ) {
			r.push_back( c == *p[v - 1] );
			r.push_back( c != *p[v - 1] );
		} else
			vt::bad_op( o );
	}
};
struct TakeW : Two<daw::take_t<T>> {
	using M = daw::take_t<T>;
	void op( Op const &o, Res &r ) override {
		if( o.is( "tfree" ) ) {
			T a( o.i( 0 ) );
			T const b = daw::take( a );
			r.push_back( b.v );
			r.push_back( a.v );
			return;
		}
		if( common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		Int const v = o.i( 1 );
		if( o.is( "ctorv" ) )
			p[i] = std::make_unique<M>( T( v ) );
		else if( o.is( "tget" ) ) {
			r.push_back( ( *x ).v );
			r.push_back( i == 0 ? ( *c ).v : ( *std::move( c ) ).v );
			r.push_back( i == 0 ? x.get( ).v : x->v );
			r.push_back( i == 0 ? c.get( ).v : c->v );
		} else if( o.is( "tgetm" ) )
			r.push_back( std::move( x ).get( ).v );
		else if( o.is( "tderefm" ) )
			r.push_back( ( *std::move( x ) ).v );
		else if( o.is( "selfmove" ) ) {
			M &y = x;
			x = std::move( y );
		} else if( o.is( "treset" ) )
			x.reset( );
		else if( o.is( "setv" ) ) {
			if( i == 0 )
				*x = T( v );
			else
				x.get( ) = T( v );
		} else if( o.is( "tcmp" ) )
			six( r, c, *p[v - 1] );
		else
			vt::bad_op( o );
	}
};
struct Valid {
	bool operator( )( T const &x ) const {
		return x.v >= 1 and x.v <= 9;
	}
	bool operator( )( int x ) const {
		return x >= 1 and x <= 9;
	}
};
enum class En : int {};
struct ValW : Two<daw::validated<T, Valid>> {
	using M = daw::validated<T, Valid>;
	void op( Op const &o, Res &r ) override {
		if( common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		Int const v = o.i( 1 );
		auto const guarded = [&]( auto f ) {
			try {
				f( );
				r.push_back( 0 );
			} catch( std::out_of_range const & ) { r.push_back( -1 ); }
		};
		T const t( v );
		if( o.is( "vctor" ) )
			guarded( [&] { p[i] = std::make_unique<M>( T( v ) ); } );
		else if( o.is( "vctorl" ) )
			guarded( [&] { p[i] = std::make_unique<M>( t ); } );
		else if( o.is( "vinplace" ) )
			guarded( [&] { p[i] = std::make_unique<M>( std::in_place, v ); } );
		else if( o.is( "vasg" ) )
			guarded( [&] { x = T( v ); } );
		else if( o.is( "vasgl" ) )
			guarded( [&] { x = t; } );
		else if( o.is( "vget" ) ) {
			r.push_back( x.get( ).v );
			r.push_back( ( *c ).v );
			r.push_back( c->v );
			T const &ref = c;
			r.push_back( ref.v );
		} else if( o.is( "vgetm" ) )
			r.push_back( std::move( x ).get( ).v );
		else if( o.is( "venum" ) ) {
			try {
				auto e = i == 0 ? daw::validated<En, Valid>( static_cast<int>( v ) )
				                : daw::validated<En, Valid>( std::in_place, static_cast<int>( v ) );
				r.push_back( static_cast<int>( e.get( ) ) );
			} catch( std::out_of_range const & ) { r.push_back( -1 ); }
		} else
			vt::bad_op( o );
	}
};
struct UpW : Two<daw::union_pair_t<T, vt::Tracked<true, true>>> {
	using T2 = vt::Tracked<true, true>;
	using M = daw::union_pair_t<T, T2>;
	template<typename X>
	static void see( X &x, Res &r ) {
		r.push_back( x.which( ) );
		try {
			x.visit( [&]( auto &y ) {
				r.push_back( std::is_same_v<std::remove_cvref_t<decltype( y )>, T2> );
				r.push_back( y.v );
			} );
		} catch( daw::visit_null_union_pair_exception const & ) { r.push_back( -1 ); }
	}
	template<typename X>
	void put( Op const &o, M &x, std::size_t i, Int v ) {
		X const t( v );
		if( o.is( "uctor" ) )
			p[i] = std::make_unique<M>( X( v ) );
		else if( o.is( "uctorl" ) )
			p[i] = std::make_unique<M>( t );
		else if( o.is( "uasg" ) )
			x = X( v );
		else
			x = t;
	}
	void op( Op const &o, Res &r ) override {
		if( common( o, r ) )
			return;
		std::size_t const i = o.u( 0 ) - 1;
		M &x = *p[i];
		M const &c = x;
		if( o.is( "uctor" ) or o.is( "uctorl" ) or o.is( "uasg" ) or o.is( "uasgl" ) ) {
			if( o.i( 1 ) == 0 )
				put<T>( o, x, i, o.i( 2 ) );
			else
				put<T2>( o, x, i, o.i( 2 ) );
		} else if( o.is( "visit" ) )
			see( x, r );
		else if( o.is( "cvisit" ) )
			see( c, r );
		else if( o.is( "uset" ) )
			x.visit( [&]( auto &y ) { y.v = o.i( 1 ); } );
		else if( o.is( "unull" ) )
			p[i] = std::make_unique<M>( );
		else
			vt::bad_op( o );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	World( vt::Cfg const &c ) {
		auto const t = c.s( "t" );
		if( t == "opt" )
			b = std::make_unique<OptW>( );
		else if( t == "oref" )
			b = std::make_unique<RefW>( );
		else if( t == "exp" )
			b = std::make_unique<ExpW<false, false>>( );
		else if( t == "expv" )
			b = std::make_unique<ExpW<false, true>>( );
		else if( t == "cexp" )
			b = std::make_unique<ExpW<true, false>>( );
		else if( t == "cexpv" )
			b = std::make_unique<ExpW<true, true>>( );
		else if( t == "take" )
			b = std::make_unique<TakeW>( );
		else if( t == "val" )
			b = std::make_unique<ValW>( );
		else if( t == "up" )
			b = std::make_unique<UpW>( );
		else
			vt::bad_variant( t );
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	for( Int e = 1; e <= 3; ++e )
		pool[e] = fresh( e );
	return vt::run_world<World>( a.sched, a.outp );
}
