// Conformance driver for ordered_map and fixed_lookup (spec/OrderedMap.tla)
#include "trace.h"

#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include <daw/deprecated/daw_fixed_lookup.h>
#include <daw/deprecated/daw_ordered_map.h>

using vt::Int;
using vt::Op;
using vt::Res;

template<typename T>
struct Conv;
template<>
struct Conv<int> {
	static int mk( Int i ) {
		return static_cast<int>( i );
	}
	static Int un( int k ) {
		return k;
	}
};
template<>
struct Conv<std::string> {
	static std::string mk( Int i ) {
		return i == 0 ? std::string( ) : std::string( 24, 'k' ) + std::to_string( i );
	}
	static Int un( std::string const &k ) {
		return k.empty( ) ? 0 : std::stoll( k.substr( 24 ) );
	}
};
template<typename K, int D, bool Desc>
struct Cmp {
	bool operator( )( K const &a, K const &b ) const {
		auto const x = Conv<K>::un( a ) / D;
		auto const y = Conv<K>::un( b ) / D;
		return Desc ? y < x : x < y;
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename K, typename V, typename C>
struct OmW : Base {
	using M = daw::ordered_map<K, V, C>;
	std::optional<M> mp{ std::in_place };
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		auto kv = [&]( auto const &e ) {
			put( Conv<K>::un( e.first ) );
			put( Conv<V>::un( e.second ) );
		};
		M &m = *mp;
		M const &c = m;
		if( o.is( "range" ) ) {
			std::string const w = o.s( 0 );
			auto const ks = o.l( 1 );
			std::vector<std::pair<K, V>> es;
			for( std::size_t i = 0; i < ks.size( ); ++i )
				es.emplace_back( Conv<K>::mk( ks[i] ), Conv<V>::mk( static_cast<Int>( i ) + 1 ) );
			using A = typename M::allocator_type;
			using P = typename M::value_type;
			auto il = [&]( auto... more ) -> std::optional<M> {
				auto p = [&]( std::size_t i ) {
					return P( es[i].first, es[i].second );
				};
				switch( es.size( ) ) {
				case 0:
					return std::optional<M>( std::in_place, std::initializer_list<P>{ }, more... );
				case 1:
					return std::optional<M>( std::in_place, std::initializer_list<P>{ p( 0 ) }, more... );
				case 2:
					return std::optional<M>( std::in_place, std::initializer_list<P>{ p( 0 ), p( 1 ) }, more... );
				case 3:
					return std::optional<M>( std::in_place, std::initializer_list<P>{ p( 0 ), p( 1 ), p( 2 ) }, more... );
				default:
					return std::optional<M>( std::in_place, std::initializer_list<P>{ p( 0 ), p( 1 ), p( 2 ), p( 3 ) }, more... );
				}
			};
			if( w == "range" )
				mp.emplace( es.begin( ), es.end( ) );
			else if( w == "rangecmp" )
				mp.emplace( es.data( ), es.data( ) + es.size( ), C{ } );
			else if( w == "rangealloc" )
				mp.emplace( es.cbegin( ), es.cend( ), A{ } );
			else if( w == "ilist" )
				mp = il( A{ } );
			else
				mp = il( C{ }, A{ } );
			return;
		}
		auto const k = Conv<K>::mk( o.i( 0 ) );
		auto const v = Conv<V>::mk( o.i( 1 ) );
		auto ins = [&]( auto res ) {
			put( res.second );
			kv( *res.first );
		};
		if( o.is( "insv" ) ) {
			typename M::value_type const e( k, v );
			ins( m.insert( e ) );
		} else if( o.is( "insp" ) )
			ins( m.insert( std::pair<K, V>( k, v ) ) );
		else if( o.is( "insb" ) )
			ins( m.insert( { k, v } ) );
		else if( o.is( "put" ) )
			m[k] = v;
		else if( o.is( "idx" ) )
			put( Conv<V>::un( m[k] ) );
		else if( o.is( "at" ) or o.is( "cat" ) or o.is( "setat" ) ) {
			try {
				if( o.is( "at" ) )
					put( Conv<V>::un( m.at( k ) ) );
				else if( o.is( "cat" ) )
					put( Conv<V>::un( c.at( k ) ) );
				else
					m.at( k ) = v;
			} catch( std::out_of_range const & ) {
				put( -1 );
			}
		} else if( o.is( "find" ) ) {
			auto i = m.find( k );
			put( i - m.begin( ) );
			if( i != m.end( ) )
				kv( *i );
			auto j = c.find( k );
			put( j - c.begin( ) );
			if( j != c.end( ) )
				kv( *j );
		} else if( o.is( "setfind" ) ) {
			auto i = m.find( k );
			if( i == m.end( ) )
				put( -1 );
			else
				i->second = v;
		} else if( o.is( "list" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			Res a, b, d;
			for( auto const &e : c ) {
				a.push_back( Conv<K>::un( e.first ) );
				a.push_back( Conv<V>::un( e.second ) );
			}
			for( auto i = m.begin( ); i != m.end( ); ++i ) {
				b.push_back( Conv<K>::un( i->first ) );
				b.push_back( Conv<V>::un( i->second ) );
			}
			for( auto i = c.cbegin( ); i != c.cend( ); ++i ) {
				d.push_back( Conv<K>::un( i->first ) );
				d.push_back( Conv<V>::un( i->second ) );
			}
			for( auto x : a )
				r.push_back( x );
			if( not( a == b ) or not( a == d ) or c.size( ) > c.max_size( ) )
				put( -1000 );
		} else if( o.is( "rlist" ) ) {
			Res a, b, d;
			for( auto i = m.rbegin( ); i != m.rend( ); ++i ) {
				a.push_back( Conv<K>::un( i->first ) );
				a.push_back( Conv<V>::un( i->second ) );
			}
			for( auto i = c.rbegin( ); i != c.rend( ); ++i ) {
				b.push_back( Conv<K>::un( i->first ) );
				b.push_back( Conv<V>::un( i->second ) );
			}
			for( auto i = c.crbegin( ); i != c.crend( ); ++i ) {
				d.push_back( Conv<K>::un( i->first ) );
				d.push_back( Conv<V>::un( i->second ) );
			}
			for( auto x : a )
				r.push_back( x );
			if( not( a == b ) or not( a == d ) )
				put( -1000 );
		} else if( o.is( "ends" ) ) {
			if( not c.empty( ) ) {
				kv( m.front( ) );
				kv( c.back( ) );
				if( m.front( ) != c.front( ) or m.back( ) != c.back( ) )
					put( -1000 );
			}
		} else if( o.is( "clear" ) )
			m.clear( );
		else if( o.is( "copy" ) ) {
			M n( c );
			M e( C{ }, typename M::allocator_type{ } );
			e = std::move( n );
			mp.reset( );
			mp.emplace( std::move( e ) );
		} else
			vt::bad_op( o );
	}
};
template<typename V, std::size_t N, std::size_t H>
struct FlW : Base {
	using M = daw::fixed_lookup<V, N, H>;
	std::vector<int> keys;
	std::map<Int, Int> index;
	M *m;
	static Int home( int k ) {
		M t{ };
		return static_cast<Int>( t.insert( k, V{ } ) );
	}
	explicit FlW( std::vector<Int> const &sl ) {
		int k = -5;
		for( Int s : sl ) {
			while( home( k ) != s )
				++k;
			keys.push_back( k++ );
		}
		// storage that held something before: a default initialised table must be empty all the same
		void *p = ::operator new( sizeof( M ), std::align_val_t( alignof( M ) ) );
		std::memset( p, 0x5a, sizeof( M ) );
		m = ::new( p ) M;
	}
	~FlW( ) override {
		m->~M( );
		::operator delete( m, std::align_val_t( alignof( M ) ) );
	}
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		M const &c = *m;
		Int const ki = o.i( 0 );
		int const k = keys.at( static_cast<std::size_t>( ki ) );
		auto const v = Conv<V>::mk( o.i( 1 ) );
		try {
			if( o.is( "fins" ) ) {
				auto const p = m->insert( k, v );
				index[ki] = static_cast<Int>( p );
				put( p );
			} else if( o.is( "fput" ) ) {
				V &ref = ( *m )[k];
				ref = v;
				index[ki] = static_cast<Int>( m->find_existing( k ) );
				put( index[ki] );
			} else if( o.is( "fidx" ) ) {
				auto const x = Conv<V>::un( ( *m )[k] );
				index[ki] = static_cast<Int>( c.find_existing( k ) );
				put( index[ki] );
				put( x );
			} else if( o.is( "fcidx" ) )
				put( Conv<V>::un( c[k] ) );
			else if( o.is( "ffind" ) )
				put( c.find_existing( k ) );
			else if( o.is( "fexists" ) )
				put( c.exists( k ) );
			else if( o.is( "fget" ) ) {
				using P = decltype( c.find_existing( k ) );
				put( Conv<V>::un( m->get_existing( static_cast<P>( index[ki] ) ) ) );
				put( Conv<V>::un( c.get_existing( static_cast<P>( index[ki] ) ) ) );
			} else if( o.is( "fset" ) ) {
				using P = decltype( c.find_existing( k ) );
				m->get_existing( static_cast<P>( index[ki] ) ) = v;
			} else if( o.is( "fsize" ) ) {
				put( c.size( ) );
				put( M::capacity( ) );
			} else if( o.is( "fcopy" ) ) {
				M n( c );
				M e{ };
				e = std::move( n );
				*m = M{ };
				*m = e;
			} else
				vt::bad_op( o );
		} catch( std::exception const & ) {
			put( -1 );
		}
	}
};
static std::string variant;
template<typename K, typename V>
static std::unique_ptr<Base> om( Int d ) {
	switch( d ) {
	case 1:
		return std::make_unique<OmW<K, V, Cmp<K, 1, true>>>( );
	case 2:
		return std::make_unique<OmW<K, V, Cmp<K, 2, false>>>( );
	default:
		return std::make_unique<OmW<K, V, Cmp<K, 3, true>>>( );
	}
}
template<typename V, std::size_t H>
static std::unique_ptr<Base> fl( Int n, std::vector<Int> const &sl ) {
	switch( n ) {
	case 1:
		return std::make_unique<FlW<V, 1, H>>( sl );
	case 2:
		return std::make_unique<FlW<V, 2, H>>( sl );
	case 3:
		return std::make_unique<FlW<V, 3, H>>( sl );
	case 5:
		return std::make_unique<FlW<V, 5, H>>( sl );
	case 8:
		return std::make_unique<FlW<V, 8, H>>( sl );
	default:
		vt::bad_variant( "capacity" );
	}
}
struct World {
	std::unique_ptr<Base> b;
	explicit World( vt::Cfg const &c ) {
		bool const str = variant == "string";
		if( c.s( "t" ) == "om" )
			b = str ? om<std::string, std::string>( c.i( "d" ) ) : om<int, int>( c.i( "d" ) );
		else
			b = str ? fl<std::string, 4>( c.i( "n" ), c.l( "sl" ) ) : fl<int, 8>( c.i( "n" ), c.l( "sl" ) );
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
