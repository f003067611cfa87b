// A perfect hash table (spec/Phash.tla). HASHER: how keys are hashed.
#include "trace.h"

#include <cstdint>
#include <functional>
#include <list>
#include <memory>
#include <utility>
#include <vector>

#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_min_perfect_hash.h>

using vt::Int;
using vt::Op;
using vt::Res;

struct Same {
	constexpr std::size_t operator( )( int k ) const { return static_cast<std::size_t>( k ); }
};
struct Wide { // all differences in the upper bits
	constexpr std::size_t operator( )( int k ) const { return static_cast<std::size_t>( static_cast<unsigned>( k ) ) << 16U; }
};
struct Narrow {
	constexpr std::uint32_t operator( )( int k ) const { return static_cast<std::uint32_t>( k ) * 5U; }
};
struct Fnv {
	constexpr std::size_t operator( )( int k ) const { return static_cast<std::size_t>( daw::fnv1a_hash( k ) ); }
};
struct Table {
	virtual ~Table( ) = default;
	virtual Int *find( int k ) = 0;
	virtual Int const *cfind( int k ) const = 0;
	virtual bool contains( int k ) const = 0;
	virtual Int &at( int k ) = 0;
	virtual Int const &cat( int k ) const = 0;
	virtual std::size_t size( ) const = 0;
};
template<std::size_t N, typename H>
struct TableOf final : Table {
	daw::perfect_hash_table<N, int, Int, H> t;
	template<typename It>
	TableOf( It f, It l )
	  : t( f, l ) {}
	explicit TableOf( std::pair<int, Int> const ( &a )[N] )
	  : t( a ) {}
	Int *find( int k ) override { return t.find( k ); }
	Int const *cfind( int k ) const override { return t.find( k ); }
	bool contains( int k ) const override { return t.contains( k ); }
	Int &at( int k ) override { return t[k]; }
	Int const &cat( int k ) const override { return t[k]; }
	std::size_t size( ) const override { return t.size( ); }
};
template<std::size_t N, typename H>
static std::unique_ptr<Table> make( std::vector<Int> const &ks, Int src ) {
	std::pair<int, Int> a[N];
	for( std::size_t i = 0; i < N; ++i )
		a[i] = { static_cast<int>( ks[i] ), static_cast<Int>( i + 1 ) };
	using T = TableOf<N, H>;
	switch( src ) {
	case 0: return std::make_unique<T>( a );
	case 1:
	if constexpr( N == 3 or N == 7 ) {
		std::vector<std::pair<int, Int>> const v( a, a + N );
		return std::make_unique<T>( v.begin( ), v.end( ) );
	}
	else
		std::abort( );
	case 2:
	if constexpr( N == 3 or N == 7 ) {
		std::list<std::pair<int, Int>> const v( a, a + N );
		return std::make_unique<T>( v.begin( ), v.end( ) );
	}
	else
		std::abort( );
	default: {
		struct Made final : Table {
			decltype( daw::make_perfect_hash_table<H>( a ) ) t;
			explicit Made( std::pair<int, Int> const ( &x )[N] )
			  : t( daw::make_perfect_hash_table<H>( x ) ) {}
			Int *find( int k ) override { return t.find( k ); }
			Int const *cfind( int k ) const override { return t.find( k ); }
			bool contains( int k ) const override { return t.contains( k ); }
			Int &at( int k ) override { return t[k]; }
			Int const &cat( int k ) const override { return t[k]; }
			std::size_t size( ) const override { return t.size( ); }
		};
		return std::make_unique<Made>( a );
	}
	}
}
template<typename H>
static std::unique_ptr<Table> make( std::vector<Int> const &ks, Int src ) {
	switch( ks.size( ) ) {
	case 1: return make<1, H>( ks, src );
	case 2: return make<2, H>( ks, src );
	case 3: return make<3, H>( ks, src );
	case 4: return make<4, H>( ks, src );
	case 7: return make<7, H>( ks, src );
	case 13: return make<13, H>( ks, src );
	}
	std::abort( );
}
struct World {
	inline static std::string variant;
	std::unique_ptr<Table> t;
	std::vector<Int> pool;
	explicit World( vt::Cfg const &c ) {
		auto const ks = c.l( "k" );
		pool = c.l( "p" );
		Int const src = c.i( "src" );
		t = make<HASHER>( ks, src );
	}
	void row( Res &r ) const {
		for( auto k : pool ) {
			int const x = static_cast<int>( k );
			auto const *p = t->cfind( x );
			bool const ok = t->contains( x ) == ( p != nullptr ) and t->find( x ) == p and ( not p or ( &t->at( x ) == p and &t->cat( x ) == p ) );
			r.push_back( ok ? ( p ? *p : -1 ) : -99 );
		}
		r.push_back( static_cast<Int>( t->size( ) ) );
	}
	void op( Op const &o, Res &r ) {
		if( o.is( "probe" ) )
			return row( r );
		if( o.is( "set" ) ) {
			t->at( static_cast<int>( o.i( 0 ) ) ) = o.i( 1 );
			return row( r );
		}
		if( o.is( "put" ) ) {
			auto *p = t->find( static_cast<int>( o.i( 0 ) ) );
			if( p )
				*p = o.i( 1 );
			r.push_back( p != nullptr );
			return row( r );
		}
		vt::bad_op( o );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
