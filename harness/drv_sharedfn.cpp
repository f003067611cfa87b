#include "vsched.h"
#include <sanitizer/asan_interface.h>
#include <daw/daw_shared_function.h>
using vt::Int;
using vt::Op;
using vt::Res;

static Res *events = nullptr;
static void event( Int k, Int t, Int x ) {
	events->insert( events->end( ), { k, t, x } );
}
struct Obj {
	vs::Data d{ };
	bool alive = false;
	void const *at = nullptr;
	void *block = nullptr;
};
static Obj objs[3];

// The callable.  Moved-from copies are not objects.
struct Fn {
	Int id;
	std::shared_ptr<void> cap; // a captured handle
	explicit Fn( Int i, std::shared_ptr<void> c )
	  : id( i )
	  , cap( std::move( c ) ) {}
	Fn( Fn &&o ) noexcept
	  : id( std::exchange( o.id, 0 ) )
	  , cap( std::move( o.cap ) ) {
		adopt( );
	}
	Fn( Fn const &o )
	  : id( o.id )
	  , cap( o.cap ) {
		adopt( );
	}
	void adopt( ) {
		if( id > 0 ) {
			objs[id].at = this;
			objs[id].alive = true;
		}
	}
	~Fn( ) {
		if( id > 0 and objs[id].at == this ) {
			if( not objs[id].d.ok_write( ) )
				event( 5, vs::self, id );
			event( 2, vs::self, id );
			objs[id].alive = false;
			objs[id].at = nullptr;
		}
		id = -1;
	}
	Int body( Int i ) const {
		Int const me = id;
		if( i == -1 )
			return me;
		if( me < 1 or me > 2 or objs[me].at != this ) {
			event( 5, vs::self, 9 );
			return -1;
		}
		if( not objs[me].d.ok_read( ) )
			event( 5, vs::self, me );
		event( 4, vs::self, me );
		vs::point( ); // the call takes a while
		if( id != me or objs[me].at != this )
			event( 5, vs::self, 8 );
		if( not objs[me].d.ok_read( ) )
			event( 5, vs::self, me );
		return 10 * me + i;
	}
	Int operator( )( Int i ) const noexcept {
		return body( i );
	}
};
// storage: the block that contains the callable
void *operator new( std::size_t n ) {
	void *p = std::malloc( n ? n : 1 );
	if( not p )
		throw std::bad_alloc( );
	return p;
}
static void released( void *p ) {
	for( Int i = 1; i <= 2; ++i )
		if( p and objs[i].block == p ) {
			objs[i].block = nullptr;
			if( events ) {
				if( not objs[i].d.ok_write( ) )
					event( 5, vs::self, i );
				event( 3, vs::self, i );
			}
		}
	std::free( p );
}
void operator delete( void *p ) noexcept {
	released( p );
}
void operator delete( void *p, std::size_t ) noexcept {
	released( p );
}
void operator delete( void *p, std::align_val_t ) noexcept {
	released( p );
}
void operator delete( void *p, std::size_t, std::align_val_t ) noexcept {
	released( p );
}

struct Base {
	virtual ~Base( ) = default;
	virtual Int run( int t, std::string const &f, std::size_t i, std::size_t j ) = 0;
	virtual void make( int t, std::size_t i, Int id, Int share_t, Int share_i, Int cap_t, Int cap_i ) = 0;
	virtual void weak( int t, std::size_t j, int ts, std::size_t i ) = 0;
	virtual void clear( ) = 0;
};
template<typename Sig, int Cat>
struct W : Base {
	using S = daw::shared_function<Sig>;
	using Wk = daw::weak_shared_function<Sig>;
	std::array<std::array<std::optional<S>, 2>, vs::MaxT> st{ };
	std::array<std::array<std::optional<Wk>, 2>, vs::MaxT> wk{ };
	S null{ };
	W( ) {
		for( auto &a : st )
			for( auto &x : a )
				x.emplace( );
		for( auto &a : wk )
			for( auto &x : a )
				x.emplace( null.get_weak( ) );
	}
	std::array<S *, 3> caps{ };
	void make( int t, std::size_t i, Int id, Int ts, Int is, Int ct, Int ci ) override {
		auto &x = *st[static_cast<std::size_t>( t )][i];
		if( ts > 0 )
			x = *st[static_cast<std::size_t>( ts )][static_cast<std::size_t>( is )];
		else {
			std::shared_ptr<S> c{ };
			if( ct > 0 ) {
				c = std::make_shared<S>( *st[static_cast<std::size_t>( ct )][static_cast<std::size_t>( ci )] );
				caps[static_cast<std::size_t>( id )] = c.get( );
			}
			x = S( Fn( id, std::move( c ) ) );
			// the block is the allocation that contains the callable
			auto const *a = static_cast<char const *>( objs[id].at );
			char name;
			void *b = nullptr;
			std::size_t sz = 0;
			__asan_locate_address( const_cast<char *>( a ), &name, 1, &b, &sz );
			objs[id].block = b;
		}
	}
	void weak( int t, std::size_t j, int ts, std::size_t i ) override {
		*wk[static_cast<std::size_t>( t )][j] = st[static_cast<std::size_t>( ts )][i]->get_weak( );
	}
	static Int call( S &s, Int i ) {
		if constexpr( Cat == 0 )
			return s( i );
		else if constexpr( Cat == 1 )
			return std::as_const( s )( i );
		else if constexpr( Cat == 2 )
			return std::move( s )( i );
		else
			return std::move( std::as_const( s ) )( i );
	}
	// asks the callable for its name
	static Int who( S &s ) {
		return call( s, -1 );
	}
	Int run( int t, std::string const &f, std::size_t i, std::size_t j ) override {
		auto &s = st[static_cast<std::size_t>( t )];
		auto &w = wk[static_cast<std::size_t>( t )];
		if( f == "copy" )
			*s[j] = std::as_const( *s[i] );
		else if( f == "copyc" )
			s[j].emplace( std::as_const( *s[i] ) );
		else if( f == "move" )
			*s[j] = std::move( *s[i] );
		else if( f == "movec" )
			s[j].emplace( std::move( *s[i] ) );
		else if( f == "drop" )
			*s[i] = S{ };
		else if( f == "dropd" ) {
			s[i].reset( );
			s[i].emplace( );
		} else if( f == "run" )
			return *s[i] ? call( *s[i], static_cast<Int>( i ) + 1 ) : -1;
		else if( f == "unwrap" or f == "unwrapm" ) {
			// the handle inside of the callable replaces the handle of that callable
			for( std::size_t k = 1; k <= 2; ++k )
				if( *s[i] and who( *s[i] ) == static_cast<Int>( k ) and caps[k] and *caps[k] ) {
					if( f == "unwrap" )
						*s[i] = std::as_const( *caps[k] );
					else
						*s[i] = std::move( *caps[k] );
					break;
				}
		} else if( f == "bool" )
			return static_cast<bool>( *s[i] );
		else if( f == "weak" )
			*w[j] = s[i]->get_weak( );
		else if( f == "wcopy" )
			*w[j] = std::as_const( *w[i] );
		else if( f == "wmove" )
			*w[j] = std::move( *w[i] );
		else if( f == "wdrop" )
			*w[i] = null.get_weak( );
		else if( f == "lock" ) {
			s[j].emplace( w[i]->lock( ) );
			return static_cast<bool>( *s[j] );
		}
		return 0;
	}
	void clear( ) override {
		for( auto &a : st )
			for( auto &x : a )
				x.reset( );
		for( auto &a : wk )
			for( auto &x : a )
				x.reset( );
	}
};
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	Int n;
	Res log{ };
	World( vt::Cfg const &c )
	  : n( c.i( "n" ) ) {
		vs::reset( );
		for( auto &o : objs )
			o = Obj{ };
		events = &log;
		log.reserve( 10000 );
		auto const &v = variant;
		if( v == "none" )
			b = std::make_unique<W<Int( Int ), 0>>( );
		else if( v == "const" )
			b = std::make_unique<W<Int( Int ) const, 1>>( );
		else if( v == "ref" )
			b = std::make_unique<W<Int( Int ) &, 0>>( );
		else if( v == "cref" )
			b = std::make_unique<W<Int( Int ) const &, 1>>( );
		else if( v == "rref" )
			b = std::make_unique<W<Int( Int ) &&, 2>>( );
		else if( v == "crref" )
			b = std::make_unique<W<Int( Int ) const &&, 3>>( );
		else if( v == "nonen" )
			b = std::make_unique<W<Int( Int ) noexcept, 0>>( );
		else if( v == "constn" )
			b = std::make_unique<W<Int( Int ) const noexcept, 1>>( );
		else if( v == "refn" )
			b = std::make_unique<W<Int( Int ) & noexcept, 0>>( );
		else if( v == "crefn" )
			b = std::make_unique<W<Int( Int ) const & noexcept, 1>>( );
		else if( v == "rrefn" )
			b = std::make_unique<W<Int( Int ) && noexcept, 2>>( );
		else if( v == "crrefn" )
			b = std::make_unique<W<Int( Int ) const && noexcept, 3>>( );
		else
			vt::bad_variant( v );
		// strong first; a weak slot refers to an object that some strong slot has
		std::map<Int, std::pair<Int, Int>> first{ };
		auto const cap = c.l( "cap" );
		auto const &st = c.m.at( "st" ).v;
		for( std::size_t t = 0; t < st.size( ); ++t )
			for( std::size_t i = 0; i < 2; ++i ) {
				Int const id = st[t].v.at( i ).n;
				if( id == 0 )
					continue;
				auto it = first.find( id );
				if( it == first.end( ) ) {
					{
					auto const k = cap[static_cast<std::size_t>( id ) - 1];
					b->make( static_cast<int>( t ) + 1, i, id, 0, 0, k ? first[k].first : 0, k ? first[k].second : 0 );
					first[id] = { static_cast<Int>( t ) + 1, static_cast<Int>( i ) };
					}
				} else
					b->make( static_cast<int>( t ) + 1, i, id, it->second.first, it->second.second, 0, 0 );
			}
		auto const &wk = c.m.at( "wk" ).v;
		for( std::size_t t = 0; t < wk.size( ); ++t )
			for( std::size_t i = 0; i < 2; ++i )
				if( Int const id = wk[t].v.at( i ).n; id != 0 )
					b->weak( static_cast<int>( t ) + 1, i, static_cast<int>( first[id].first ), static_cast<std::size_t>( first[id].second ) );
		log.clear( );
	}
	~World( ) {
		for( int t = 1; t < vs::MaxT; ++t )
			vs::th[0].vc.join( vs::th[t].vc );
		events = &log;
		b->clear( );
		b.reset( );
		events = nullptr;
		// everything is gone
		for( auto &o : objs )
			if( o.alive or o.block )
				++vt::errs;
		vs::reset( );
	}
	void finish( int t ) {
		for( int i = 0; i < 100000 and vs::th[t].busy; ++i )
			vs::resume( t );
	}
	void op( Op const &o, Res &r ) {
		int const t = static_cast<int>( o.i( 0 ) );
		if( o.is( "call" ) ) {
			finish( t );
			auto f = o.s( 1 );
			auto i = o.u( 2 ) - 1, j = o.u( 3 ) - 1;
			vs::begin( t, [this, t, f, i, j] {
				Int const q = b->run( t, f, i, j );
				event( 1, t, q );
			} );
		} else if( o.is( "step" ) )
			vs::resume( t );
		else if( o.is( "spur" ) )
			vs::th[t].spur = true;
		else
			vt::bad_op( o );
		r.assign( log.begin( ), log.end( ) );
		log.clear( );
	}
	void fin( Res &r ) {
		for( int t = 1; t <= n; ++t )
			finish( t );
		r.assign( log.begin( ), log.end( ) );
		log.clear( );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	vs::warm( );
	return vt::run_world<World>( a.sched, a.outp );
}
