// Conformance driver for on_scope_exit, on_exit_success, unique_resource, countable_resource_t, allow_once_t (spec/Scopes.tla)
#include "trace.h"

#include <memory>
#include <optional>
#include <thread>
#include <variant>
#include <vector>

#include <daw/daw_allow_once.h>
#include <daw/daw_countable_resource.h>
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>

using vt::Int;
using vt::Op;
using vt::Res;

static Res *events = nullptr;
static Res unseen;
struct Action {
	vt::Tracked<true> id;
	void operator( )( ) const {
		if( events )
			events->push_back( id.v );
	}
};
// leaves a copy of itself behind when it is moved from
struct Sticky {
	vt::Tracked<true> id;
	Sticky( Int x )
	  : id( x ) {}
	Sticky( Sticky const & ) = default;
	Sticky &operator=( Sticky const & ) = default;
	void operator( )( ) const {
		if( events )
			events->push_back( id.v );
	}
};
struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
struct ScopeW : Base {
	using SG = daw::ScopeGuard<Sticky>;
	using ES = daw::on_exit_success<Sticky>;
	struct Scope {
		std::unique_ptr<SG> sg;
		std::unique_ptr<ES> es;
	};
	std::vector<Scope> g;
	void pop( ) {
		Scope s = std::move( g.back( ) );
		g.pop_back( );
		s.sg.reset( );
		s.es.reset( );
	}
	template<typename F>
	struct AtExit {
		F f;
		~AtExit( ) {
			f( );
		}
	};
	template<typename F>
	static void during_unwinding( F f ) {
		try {
			AtExit<F> e{ f };
			throw 1;
		} catch( int ) {}
	}
	~ScopeW( ) override {
		while( not g.empty( ) )
			pop( );
	}
	void op( Op const &o, Res &r ) override {
		events = &r;
		if( o.is( "push" ) ) {
			Scope s;
			if( o.i( 0 ) % 2 )
				s.sg = std::unique_ptr<SG>( new SG( daw::on_scope_exit( Sticky( o.i( 0 ) ) ) ) );
			else {
				Sticky const a( o.i( 0 ) );
				s.sg = std::make_unique<SG>( a );
			}
			g.push_back( std::move( s ) );
		} else if( o.is( "pushes" ) ) {
			Scope s;
			Sticky a( o.i( 0 ) );
			s.es = o.i( 0 ) % 2 ? std::make_unique<ES>( Sticky( o.i( 0 ) ) ) : std::make_unique<ES>( std::as_const( a ) );
			g.push_back( std::move( s ) );
		} else if( o.is( "exit" ) )
			pop( );
		else if( o.is( "unwind" ) )
			during_unwinding( [&] {
				for( Int i = 0; i < o.i( 0 ); ++i )
					pop( );
			} );
		else if( o.is( "cancel" ) )
			g[o.u( 0 ) - 1].sg->cancel( );
		else if( o.is( "dismiss" ) )
			g[o.u( 0 ) - 1].sg->dismiss( );
		else if( o.is( "run" ) )
			g[o.u( 0 ) - 1].sg->run_now( );
		else if( o.is( "movec" ) ) {
			Scope s;
			s.sg = std::make_unique<SG>( std::move( *g[o.u( 0 ) - 1].sg ) );
			g.push_back( std::move( s ) );
		} else if( o.is( "movea" ) )
			*g[o.u( 0 ) - 1].sg = std::move( *g[o.u( 1 ) - 1].sg );
		else if( o.is( "nest" ) ) {
			Int const a = o.i( 0 ), m = o.i( 1 );
			auto const body = [&] {
				if( m == 0 or m == 4 )
					daw::on_exit_success es( Action{ a } );
				else if( m == 1 ) {
					try {
						daw::on_exit_success es( Action{ a } );
						throw 2;
					} catch( int ) {}
				} else if( m == 2 )
					auto sg = daw::on_scope_exit( Action{ a } );
				else {
					try {
						auto sg = daw::on_scope_exit( Action{ a } );
						throw 2;
					} catch( int ) {}
				}
			};
			if( m == 4 ) {
				try {
					throw 1;
				} catch( int ) { body( ); }
			} else
				during_unwinding( body );
		} else
			vt::bad_op( o );
		events = nullptr;
	}
};
struct Deleter {
	void operator( )( vt::Tracked<false> &x ) const {
		if( events )
			events->push_back( x.v );
	}
};
struct ResW : Base {
	using R = daw::unique_resource<vt::Tracked<false>, Deleter>;
	std::unique_ptr<R> p[2];
	ResW( ) {
		p[0] = std::make_unique<R>( );
		p[1] = std::make_unique<R>( );
	}
	void op( Op const &o, Res &r ) override {
		events = &r;
		auto &q = p[o.u( 0 ) - 1];
		R &x = *q;
		R const &c = x;
		if( o.is( "ctor" ) )
			q = std::make_unique<R>( vt::Tracked<false>( o.i( 1 ) ) );
		else if( o.is( "def" ) )
			q = std::make_unique<R>( );
		else if( o.is( "emplace" ) ) {
			Int const v = x.emplace( o.i( 1 ) ).v;
			r.push_back( v );
		} else if( o.is( "reset" ) )
			x.reset( );
		else if( o.is( "resetv" ) )
			x.reset( vt::Tracked<false>( o.i( 1 ) ) );
		else if( o.is( "release" ) ) {
			auto v = x.release( );
			r.push_back( v.v );
		} else if( o.is( "get" ) )
			r = { x.get( ).v, c.get( ).v, ( *x ).v, ( *c ).v, x->v, c->v };
		else if( o.is( "set" ) )
			( *x ).v = o.i( 1 );
		else if( o.is( "movec" ) )
			q = std::make_unique<R>( std::move( *p[o.u( 1 ) - 1] ) );
		else if( o.is( "movea" ) )
			x = std::move( *p[o.u( 1 ) - 1] );
		else if( o.is( "selfm" ) ) {
			R &y = x;
			x = std::move( y );
		} else
			vt::bad_op( o );
		events = nullptr;
	}
};
struct CntW : Base {
	using R = daw::countable_resource_t<int>;
	std::optional<R> p[3];
	void op( Op const &o, Res &r ) override {
		if( o.is( "value" ) ) {
			r.push_back( R::value( ) );
			return;
		}
		auto &x = p[o.u( 0 ) - 1];
		if( o.is( "create" ) )
			x.emplace( );
		else if( o.is( "copy" ) )
			x.emplace( std::as_const( *p[o.u( 1 ) - 1] ) );
		else if( o.is( "assign" ) )
			*x = *p[o.u( 1 ) - 1];
		else if( o.is( "destroy" ) )
			x.reset( );
		else
			vt::bad_op( o );
	}
};
struct OnceW : Base {
	daw::allow_once_t f{ };
	void op( Op const &o, Res &r ) override {
		if( o.is( "check" ) )
			r.push_back( std::as_const( f ).check( ) );
		else if( o.is( "bool" ) )
			r.push_back( static_cast<bool>( f ) );
		else if( o.is( "resetonce" ) )
			f.reset( );
		else
			vt::bad_op( o );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	World( vt::Cfg const &c ) {
		auto const t = c.s( "t" );
		if( t == "scope" )
			b = std::make_unique<ScopeW>( );
		else if( t == "res" )
			b = std::make_unique<ResW>( );
		else if( t == "cnt" )
			b = std::make_unique<CntW>( );
		else
			b = std::make_unique<OnceW>( );
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
