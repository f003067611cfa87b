#include "vsched.h"
#include <daw/daw_atomic_wait.h>
using vt::Int;
using vt::Op;
using vt::Res;

template<typename Dur>
Int wait( std::atomic<int> const *a, std::string const &f, int x, Int d_us, Int deadline_ns, std::memory_order mo, bool dflt ) {
	using clk = std::chrono::high_resolution_clock;
	Dur const d = std::chrono::duration_cast<Dur>( std::chrono::microseconds( d_us ) );
	auto const dl = clk::time_point( std::chrono::nanoseconds( deadline_ns ) );
	auto st = []( daw::wait_status s ) -> Int { return s == daw::wait_status::found ? 0 : 1; };
	auto pred = [x]( int v ) { return v >= x; };
	if( f == "for" )
		return st( dflt ? daw::atomic_wait_for( a, x, d ) : daw::atomic_wait_for( a, x, d, mo ) );
	if( f == "until" )
		return st( dflt ? daw::atomic_wait_until( a, x, dl ) : daw::atomic_wait_until( a, x, dl, mo ) );
	if( f == "iffor" )
		return st( dflt ? daw::atomic_wait_if_for( a, pred, d ) : daw::atomic_wait_if_for( a, pred, d, mo ) );
	if( f == "ifuntil" )
		return st( dflt ? daw::atomic_wait_if_until( a, pred, dl ) : daw::atomic_wait_if_until( a, pred, dl, mo ) );
	if( f == "eqfor" )
		return st( dflt ? daw::atomic_wait_value_equal_for( a, x, d ) : daw::atomic_wait_value_equal_for( a, x, d, mo ) );
	if( f == "equntil" )
		return st( dflt ? daw::atomic_wait_value_equal_until( a, x, dl ) : daw::atomic_wait_value_equal_until( a, x, dl, mo ) );
	if( f == "if" ) {
		dflt ? daw::atomic_wait_if( a, pred ) : daw::atomic_wait_if( a, pred, mo );
		return 2;
	}
	dflt ? daw::atomic_wait_value_equal( a, x ) : daw::atomic_wait_value_equal( a, x, mo );
	return 2;
}
struct World {
	static inline std::string variant;
	std::atomic<int> a;
	Int n, dt;
	Res log{ };
	std::vector<Int> stamp{ 0 }; // the driver's clock component at each store
	World( vt::Cfg const &c )
	  : a( static_cast<int>( c.i( "v" ) ) )
	  , n( c.i( "n" ) )
	  , dt( c.i( "dt" ) ) {
		vs::reset( );
	}
	~World( ) {
		vs::reset( );
	}
	Int visible( int t, Int ord ) {
		if( ord == 2 )
			return 1000000;
		Int k = 0;
		while( static_cast<std::size_t>( k + 1 ) < stamp.size( ) and stamp[static_cast<std::size_t>( k + 1 )] <= vs::th[t].vc.c[0] )
			++k;
		return k;
	}
	void op( Op const &o, Res &r ) {
		if( o.is( "call" ) ) {
			int const t = static_cast<int>( o.i( 0 ) );
			if( vs::th[t].busy ) {
				r = { vs::now / 1000, -7 };
				return;
			}
			auto const f = o.s( 1 );
			int const x = static_cast<int>( o.i( 2 ) );
			Int const d = o.i( 3 ), ord = o.i( 4 );
			Int const dl = vs::now + d * 1000;
			vs::begin( t, [=, this] {
				auto const mo = ord == 1 ? std::memory_order_seq_cst : ord == 2 ? std::memory_order_relaxed : std::memory_order_acquire;
				Int s = 0;
				if( dt == 0 )
					s = wait<std::chrono::microseconds>( &a, f, x, d, dl, mo, ord == 0 );
				else if( dt == 1 )
					s = wait<std::chrono::nanoseconds>( &a, f, x, d, dl, mo, ord == 0 );
				else
					s = wait<std::chrono::duration<double>>( &a, f, x, d, dl, mo, ord == 0 );
				log.insert( log.end( ), { t, s, vs::now / 1000, visible( t, ord ) } );
			} );
			vs::resume( t );
		} else if( o.is( "run" ) ) {
			int const t = static_cast<int>( o.i( 0 ) );
			for( Int i = 0; i < o.i( 1 ) and vs::th[t].busy; ++i )
				vs::resume( t );
		} else if( o.is( "store" ) )
			set( static_cast<int>( o.i( 0 ) ), o.i( 1 ) != 0 );
		else if( o.is( "adv" ) )
			vs::now += 1000 * o.i( 0 );
		else
			vt::bad_op( o );
		r = { vs::now / 1000 };
		r.insert( r.end( ), log.begin( ), log.end( ) );
		log.clear( );
	}
	void set( int v, bool ntf ) {
		vs::th[0].vc.c[0]++;
		a.store( v, std::memory_order_release );
		stamp.push_back( vs::th[0].vc.c[0] );
		vs::th[0].vc.c[0]++;
		if( ntf )
			std::atomic_notify_all( &a );
	}
	bool any( ) {
		for( int t = 1; t <= n; ++t )
			if( vs::th[t].busy )
				return true;
		return false;
	}
	void rounds( int k ) {
		for( int i = 0; i < k and any( ); ++i ) {
			std::atomic_notify_all( &a );
			for( int t = 1; t <= n; ++t )
				for( int j = 0; j < 100; ++j )
					vs::resume( t );
			vs::now += 50'000'000;
		}
	}
	void fin( Res &r ) {
		rounds( 60 );
		r = { static_cast<Int>( log.size( ) ) + 1, vs::now / 1000 };
		r.insert( r.end( ), log.begin( ), log.end( ) );
		log.clear( );
		for( int t = 1; t <= n; ++t )
			if( vs::th[t].busy )
				r.push_back( t );
		// the rest is let go
		for( int i = 0; i < 10 and any( ); ++i ) {
			set( i, true );
			rounds( 10 );
		}
		if( any( ) )
			std::abort( );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	vs::warm( );
	return vt::run_world<World>( a.sched, a.outp );
}
