// -DGRP=0 daw::atomic, 1: allow_once_t and countable_resource_t
#include "vsched.h"
#include <daw/daw_cx_atomic.h>
#include <daw/daw_allow_once.h>
#include <daw/daw_countable_resource.h>
using vt::Int;
using vt::Op;
using vt::Res;

// the observed value of an 8 bit model in T:  plain, sign extended (X), or in the top bits (S)
template<typename T, int Shift>
struct Rep {
	static constexpr T in( Int x ) {
		if constexpr( Shift > 0 )
			return static_cast<T>( static_cast<std::make_unsigned_t<T>>( x ) << Shift );
		else
			return static_cast<T>( x );
	}
	static constexpr Int out( T x ) {
		if constexpr( std::is_same_v<T, bool> or std::is_floating_point_v<T> )
			return static_cast<Int>( x );
		else if constexpr( Shift > 0 ) {
			auto u = static_cast<std::make_unsigned_t<T>>( x );
			if( ( u & ( ( std::make_unsigned_t<T>( 1 ) << Shift ) - 1 ) ) != 0 )
				return 100000;
			return static_cast<signed char>( u >> Shift );
		} else
			return static_cast<std::make_signed_t<T>>( x );
	}
};
// Shift > 0: increments count units of the lowest bit, so they are left out by the specification
template<typename T, typename R, bool Ct = false>
constexpr std::array<Int, 2> apply( daw::atomic<T> &a, std::string_view f, Int x, Int y ) {
	T const v = R::in( x );
	auto const mo = std::memory_order_acq_rel;
	(void)mo;
	Int r = 0, e = 0;
	if( f == "load" )
		r = R::out( a.load( ) );
	else if( f == "conv" )
		r = R::out( static_cast<T>( a ) );
	else if( f == "store" )
		a.store( v );
	else if( f == "assign" )
		a = v;
	else if( f == "exchange" )
		r = R::out( a.exchange( v ) );
	else if( f == "copyc" ) {
		daw::atomic<T> b( a );
		r = R::out( b.load( ) );
	} else if( f == "copya" ) {
		daw::atomic<T> b{ };
		b = a;
		r = R::out( b.load( ) );
	} else if( f == "cas" or f == "casw" or f == "cas2" or f == "casw2" ) {
		T ex = v;
		bool ok = false;
		if( f == "cas" )
			ok = a.compare_exchange_strong( ex, R::in( y ) );
		else if( f == "casw" )
			ok = a.compare_exchange_weak( ex, R::in( y ) );
		else if( f == "cas2" )
			ok = a.compare_exchange_strong( ex, R::in( y ), std::memory_order_acq_rel, std::memory_order_relaxed );
		else
			ok = a.compare_exchange_weak( ex, R::in( y ), std::memory_order_acq_rel, std::memory_order_relaxed );
		r = ok;
		e = R::out( ex );
	} else if constexpr( not std::is_same_v<T, bool> ) {
		if( f == "fadd" )
			r = R::out( a.fetch_add( v ) );
		else if( f == "fsub" )
			r = R::out( a.fetch_sub( v ) );
		else if( f == "add" )
			r = R::out( a += v );
		else if( f == "sub" )
			r = R::out( a -= v );
		else if constexpr( std::is_integral_v<T> ) {
			if( f == "preinc" )
				r = R::out( ++a );
			else if( f == "postinc" )
				r = R::out( a++ );
			else if( f == "predec" )
				r = R::out( --a );
			else if( f == "postdec" )
				r = R::out( a-- );
			else if( f == "fand" )
				r = R::out( a.fetch_and( v ) );
			else if( f == "for" )
				r = R::out( a.fetch_or( v ) );
			else if( f == "fxor" )
				r = R::out( a.fetch_xor( v ) );
			else if( f == "and" )
				r = R::out( a &= v );
			else if( f == "or" )
				r = R::out( a |= v );
			else if( f == "xor" )
				r = R::out( a ^= v );
			else
				r = 99999;
		}
	}
	return { r, e };
}
#if GRP == 0
// compile time evaluation
inline constexpr std::array ct_v{ -128, -127, -1, 0, 1, 2, 127 };
inline constexpr std::array<std::string_view, 25> ct_f{ "load", "conv", "store", "assign", "exchange", "copyc", "cas", "casw", "cas2", "casw2", "fadd", "fsub",
                                                        "add", "sub", "preinc", "postinc", "predec", "postdec", "fand", "for", "fxor", "and", "or", "xor", "" };
struct Row {
	signed char r, v, e;
};
template<typename T>
consteval auto ct_table( ) {
	std::array<Row, 25 * 7 * 7 * 2> res{ };
	for( std::size_t f = 0; f < 24; ++f )
		for( std::size_t v = 0; v < 7; ++v )
			for( std::size_t x = 0; x < 7; ++x )
				for( std::size_t y = 0; y < 2; ++y ) {
					daw::atomic<T> a( Rep<T, 0>::in( ct_v[v] ) );
					auto q = apply<T, Rep<T, 0>>( a, ct_f[f], ct_v[x], y ? -128 : 1 );
					res[( ( f * 7 + v ) * 7 + x ) * 2 + y] = Row{ static_cast<signed char>( q[0] ), static_cast<signed char>( Rep<T, 0>::out( a.load( ) ) ), static_cast<signed char>( q[1] ) };
				}
	return res;
}
template<typename T>
inline constexpr auto ct = ct_table<T>( );
#endif

struct Base {
	virtual ~Base( ) = default;
	virtual std::array<Int, 2> run( int t, std::string const &f, Int x, Int y ) = 0;
	virtual Int value( ) = 0;
	virtual void ct_op( Op const &o, Res & ) {
		vt::bad_op( o );
	}
};
template<typename T, typename R>
struct AtW : Base {
	daw::atomic<T> a;
	AtW( Int v )
	  : a( R::in( v ) ) {}
	std::array<Int, 2> run( int, std::string const &f, Int x, Int y ) override {
		return apply<T, R>( a, f, x, y );
	}
	Int value( ) override {
		return R::out( a.load( ) );
	}
#if GRP == 0
	void ct_op( Op const &o, Res &r ) override {
		if constexpr( sizeof( T ) == 1 and not std::is_same_v<T, bool> ) {
			auto ix = []( Int v ) { return static_cast<std::size_t>( std::find( ct_v.begin( ), ct_v.end( ), v ) - ct_v.begin( ) ); };
			auto f = static_cast<std::size_t>( std::find( ct_f.begin( ), ct_f.end( ), o.s( 0 ) ) - ct_f.begin( ) );
			auto const &q = ct<T>[( ( f * 7 + ix( o.i( 1 ) ) ) * 7 + ix( o.i( 2 ) ) ) * 2 + ( o.i( 3 ) == -128 ? 1 : 0 )];
			r = { q.r, q.v, q.e };
		}
	}
#endif
};
struct OnceW : Base {
	daw::allow_once_t a{ };
	std::array<Int, 2> run( int, std::string const &f, Int, Int ) override {
		if( f == "check" )
			return { a.check( ), 0 };
		if( f == "bool" )
			return { static_cast<bool>( a ), 0 };
		a.reset( );
		return { 0, 0 };
	}
	Int value( ) override {
		return a.check( );
	}
};
struct CntW : Base {
	using C = daw::countable_resource_t<int>;
	std::vector<std::unique_ptr<C>> own[vs::MaxT]{ };
	std::array<Int, 2> run( int t, std::string const &f, Int, Int ) override {
		auto &v = own[t];
		if( f == "create" )
			v.push_back( std::make_unique<C>( ) );
		else if( f == "clone" )
			v.push_back( std::make_unique<C>( *v.back( ) ) );
		else if( f == "destroy" )
			v.pop_back( );
		else
			return { C::value( ), 0 };
		return { 0, 0 };
	}
	Int value( ) override {
		return C::value( );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	Int n;
	Res log{ };
	World( vt::Cfg const &c )
	  : n( c.i( "n" ) ) {
		vs::reset( );
		auto const t = c.s( "t" );
		Int const v = c.i( "v" );
#if GRP == 0
		if( t == "i8" )
			b = std::make_unique<AtW<signed char, Rep<signed char, 0>>>( v );
		else if( t == "u8" )
			b = std::make_unique<AtW<unsigned char, Rep<unsigned char, 0>>>( v );
		else if( t == "bool" )
			b = std::make_unique<AtW<bool, Rep<bool, 0>>>( v );
		else if( t == "dbl" )
			b = std::make_unique<AtW<double, Rep<double, 0>>>( v );
		else if( t == "i32" )
			b = std::make_unique<AtW<int, Rep<int, 24>>>( v );
		else if( t == "u64" )
			b = std::make_unique<AtW<std::uint64_t, Rep<std::uint64_t, 56>>>( v );
		else if( t == "i64" )
			b = std::make_unique<AtW<std::int64_t, Rep<std::int64_t, 56>>>( v );
		else if( t == "u32" )
			b = std::make_unique<AtW<unsigned, Rep<unsigned, 0>>>( v );
		else if( t == "l" )
			b = std::make_unique<AtW<long, Rep<long, 0>>>( v );
		else if( t == "us" )
			b = std::make_unique<AtW<unsigned short, Rep<unsigned short, 8>>>( v );
#else
		if( t == "once" )
			b = std::make_unique<OnceW>( );
		else if( t == "cnt" )
			b = std::make_unique<CntW>( );
#endif
		else
			vt::bad_variant( t );
	}
	~World( ) {
		b.reset( );
		vs::reset( );
	}
	void finish( int t ) {
		for( int i = 0; i < 100000 and vs::th[t].busy; ++i )
			vs::resume( t );
	}
	void op( Op const &o, Res &r ) {
		if( o.is( "ct" ) )
			return b->ct_op( o, r );
		int const t = static_cast<int>( o.i( 0 ) );
		if( o.is( "call" ) ) {
			finish( t );
			auto f = o.s( 1 );
			Int x = o.i( 2 ), y = o.i( 3 );
			vs::begin( t, [this, t, f, x, y] {
				auto q = b->run( t, f, x, y );
				log.insert( log.end( ), { t, q[0], q[1] } );
			} );
			vs::resume( t ); // up to the first access
		} else if( o.is( "step" ) )
			vs::resume( t );
		else if( o.is( "spur" ) )
			vs::th[t].spur = true;
		else
			vt::bad_op( o );
		r.assign( log.begin( ), log.end( ) );
		log.clear( );
	}
	void fin( Res &r ) {
		for( int t = 1; t <= n; ++t )
			finish( t );
		r.assign( log.begin( ), log.end( ) );
		r.push_back( b->value( ) );
		log.clear( );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	vs::warm( );
	return vt::run_world<World>( a.sched, a.outp );
}
