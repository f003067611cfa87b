// Conformance driver for the fixed capacity hash containers (spec/HashMap.tla)
#include "trace.h"

#include <daw/daw_hash_set.h>
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#include <daw/static_hash_table.h>

#include <algorithm>
#include <string>

using vt::Int;
using vt::Op;
using vt::Res;

// hash values chosen so that key k falls into slot sl[k] of a table of n slots
static std::vector<std::uint64_t> hashes;
static std::size_t scaled( std::uint64_t h, std::size_t n ) {
	return static_cast<std::size_t>( ( h * 18446744073709551557ull + 18446744073709551533ull ) % n );
}
static void choose_hashes( std::vector<Int> const &sl, std::size_t n ) {
	hashes.clear( );
	std::uint64_t h = 1;
	for( Int s : sl ) {
		while( n > 0 and scaled( h, n ) != static_cast<std::size_t>( s ) % n )
			++h;
		hashes.push_back( h++ );
	}
}
template<typename K>
struct KeyOf;
template<>
struct KeyOf<int> {
	static int mk( Int i ) {
		return static_cast<int>( i );
	}
	static Int un( int k ) {
		return k;
	}
};
template<>
struct KeyOf<std::string> { // long enough to be allocated
	static std::string mk( Int i ) {
		return "a key that does not fit the small buffer " + std::to_string( i );
	}
	static Int un( std::string const &k ) {
		return k.size( ) < 41 ? -1 : std::stoll( k.substr( 41 ) );
	}
};
template<typename K>
struct TableHash {
	constexpr std::size_t operator( )( K const &k ) const {
		auto i = KeyOf<K>::un( k );
		return i < 0 ? 0 : hashes.at( static_cast<std::size_t>( i ) );
	}
};
template<typename V>
struct ValOf;
template<>
struct ValOf<int> {
	static int mk( Int i ) {
		return static_cast<int>( i );
	}
	static Int un( int v ) {
		return v;
	}
};
template<>
struct ValOf<std::string> {
	static std::string mk( Int i ) {
		return std::string( static_cast<std::size_t>( i ) * 30, 'v' );
	}
	static Int un( std::string const &v ) {
		return static_cast<Int>( v.size( ) ) / 30;
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename K, typename V, std::size_t N>
struct MapW : Base {
	using M = daw::bounded_hash_map<K, V, N, TableHash<K>>;
	M *m = new M( );
	~MapW( ) {
		delete m;
	}
	void op( Op const &o, Res &r ) override {
		auto k = KeyOf<K>::mk( o.i( 0 ) );
		auto const v = ValOf<V>::mk( o.i( 1 ) );
		M const &c = *m;
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		auto kv = [&]( auto const &e ) {
			put( KeyOf<K>::un( e.key ) );
			put( ValOf<V>::un( e.value ) );
		};
		if( o.is( "ins" ) )
			m->insert( std::as_const( k ), v );
		else if( o.is( "insp" ) )
			m->insert( std::pair<K const, V>( k, v ) );
		else if( o.is( "insl" ) )
			m->insert( K( k ), V( v ) );
		else if( o.is( "put" ) )
			( *m )[std::as_const( k )] = v;
		else if( o.is( "idx" ) )
			put( ValOf<V>::un( ( *m )[std::move( k )] ) );
		else if( o.is( "cidx" ) )
			put( ValOf<V>::un( c[k] ) );
		else if( o.is( "exists" ) ) {
			put( c.exists( k ) );
			put( c.count( k ) );
		} else if( o.is( "try_get" ) ) {
			auto p = c.try_get( k );
			put( p.has_value( ) );
			if( p )
				put( ValOf<V>::un( *p ) );
		} else if( o.is( "find" ) ) {
			auto i = m->find( k );
			put( i != m->end( ) );
			if( i != m->end( ) )
				kv( *i );
			auto j = c.find( k );
			put( not( j == c.end( ) ) );
			if( j != c.end( ) )
				kv( *j );
		} else if( o.is( "erase" ) )
			m->erase( k );
		else if( o.is( "copy" ) ) {
			M *n = new M( c );
			delete m;
			m = new M( );
			*m = std::move( *n );
			delete n;
		} else if( o.is( "list" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			put( M::capacity( ) );
			std::vector<std::pair<Int, Int>> e, e2, e3;
			for( auto const &x : c )
				e.emplace_back( KeyOf<K>::un( x.key ), ValOf<V>::un( x.value ) );
			for( auto i = m->begin( ); i != m->end( ); i++ )
				e2.emplace_back( KeyOf<K>::un( i->key ), ValOf<V>::un( ( *i ).value ) );
			auto i = c.cend( );
			while( i != c.cbegin( ) and e3.size( ) <= N ) {
				--i;
				e3.insert( e3.begin( ), { KeyOf<K>::un( i->key ), ValOf<V>::un( i->value ) } );
			}
			if( e != e2 or e != e3 )
				put( -1000 );
			std::sort( e.begin( ), e.end( ) );
			for( auto const &x : e ) {
				put( x.first );
				put( x.second );
			}
		} else
			vt::bad_op( o );
	}
};
template<typename K, std::size_t N>
struct SetW : Base {
	using M = daw::bounded_hash_set_t<K, N, TableHash<K>>;
	M *m = new M( );
	~SetW( ) {
		delete m;
	}
	void op( Op const &o, Res &r ) override {
		auto k = KeyOf<K>::mk( o.i( 0 ) );
		M const &c = *m;
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		if( o.is( "sins" ) )
			put( KeyOf<K>::un( *m->insert( std::as_const( k ) ) ) );
		else if( o.is( "sinsm" ) )
			put( KeyOf<K>::un( *m->insert( std::move( k ) ) ) );
		else if( o.is( "exists" ) ) {
			put( c.exists( k ) );
			put( c.count( k ) );
		} else if( o.is( "sfind" ) ) {
			auto i = m->find( k );
			put( i != m->end( ) );
			if( i != m->end( ) )
				put( KeyOf<K>::un( *i ) );
			auto j = c.find( k );
			put( not( j == c.end( ) ) );
			if( j != c.end( ) )
				put( KeyOf<K>::un( *j ) );
		} else if( o.is( "serase" ) )
			put( m->erase( k ).has_value( ) );
		else if( o.is( "copy" ) ) {
			M *n = new M( c );
			delete m;
			m = new M( );
			*m = std::move( *n );
			delete n;
		} else if( o.is( "list" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			put( M::capacity( ) );
			std::vector<Int> e, e2, e3, e4;
			for( auto const &x : c )
				e.push_back( KeyOf<K>::un( x ) );
			for( auto i = m->begin( ); i != m->end( ); ++i )
				e2.push_back( KeyOf<K>::un( *i ) );
			auto i = c.cend( );
			while( i != c.cbegin( ) and e3.size( ) <= N ) {
				--i;
				e3.insert( e3.begin( ), KeyOf<K>::un( *i ) );
			}
			auto j = m->end( );
			while( j != m->begin( ) and e4.size( ) <= N ) {
				j--;
				e4.insert( e4.begin( ), KeyOf<K>::un( *j ) );
			}
			if( e != e2 or e != e3 or e != e4 )
				put( -1000 );
			std::sort( e.begin( ), e.end( ) );
			for( auto const &x : e ) {
				put( x );
				put( 0 );
			}
		} else
			vt::bad_op( o );
	}
};
template<typename K>
struct VsetW : Base {
	using M = daw::hash_set_t<K, TableHash<K>>;
	M *m;
	explicit VsetW( std::size_t n )
	  : m( new M( n ) ) {}
	~VsetW( ) {
		delete m;
	}
	void op( Op const &o, Res &r ) override {
		auto k = KeyOf<K>::mk( o.i( 0 ) );
		M const &c = *m;
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		if( o.is( "vins" ) ) {
			try {
				(void)m->insert( k );
				put( 1 );
			} catch( std::out_of_range const & ) {
				put( 0 );
			}
		} else if( o.is( "exists" ) ) {
			put( c.exists( k ) );
			put( c.count( k ) );
		} else if( o.is( "verase" ) )
			put( m->erase( k ).has_value( ) );
		else if( o.is( "vsize" ) ) {
			put( c.size( ) );
			put( c.capacity( ) );
		} else if( o.is( "copy" ) ) {
			M *n = new M( c );
			delete m;
			m = new M( 0 );
			*m = std::move( *n );
			delete n;
		} else
			vt::bad_op( o );
	}
};
template<typename K, typename V, std::size_t N>
struct StaticW : Base {
	using M = daw::static_hash_t<V, N>;
	M *m;
	std::vector<Int> present; // keys given to the table so far (for "sfindpos")
	static auto const &key( Int i ) {
		static std::vector<std::string> const names{ "zero", "one", "two", "", "zeroo", "a", "b", "c", "dd" };
		return names.at( static_cast<std::size_t>( i ) );
	}
	explicit StaticW( vt::Cfg const & )
	  : m( new M( ) ) {}
	~StaticW( ) {
		delete m;
	}
	void op( Op const &o, Res &r ) override {
		auto const &k = key( o.i( 0 ) );
		auto const v = ValOf<V>::mk( o.i( 1 ) );
		M const &c = *m;
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		auto add = [&] {
			if( std::find( present.begin( ), present.end( ), o.i( 0 ) ) == present.end( ) )
				present.push_back( o.i( 0 ) );
		};
		// the same key is given as text and as a number
		if( o.is( "put" ) ) {
			add( );
			if constexpr( std::is_same_v<K, int> )
				( *m )[static_cast<int>( o.i( 0 ) )] = v;
			else
				( *m )[k.c_str( )] = v;
		} else if( o.is( "idx" ) ) {
			add( );
			if constexpr( std::is_same_v<K, int> )
				put( ValOf<V>::un( ( *m )[static_cast<int>( o.i( 0 ) )] ) );
			else
				put( ValOf<V>::un( ( *m )[k.c_str( )] ) );
		} else if( o.is( "cidx" ) ) {
			if constexpr( std::is_same_v<K, int> )
				put( ValOf<V>::un( c[static_cast<int>( o.i( 0 ) )] ) );
			else
				put( ValOf<V>::un( c[k.c_str( )] ) );
		} else if( o.is( "sfindpos" ) ) { // distinct in-range positions
			std::vector<std::size_t> ps;
			for( Int i : present ) {
				if constexpr( std::is_same_v<K, int> )
					ps.push_back( c.find( static_cast<int>( i ) ) );
				else
					ps.push_back( c.find( key( i ).c_str( ) ) );
			}
			bool ok = true;
			for( std::size_t i = 0; i < ps.size( ); ++i ) {
				ok = ok and ps[i] < N;
				for( std::size_t j = 0; j < i; ++j )
					ok = ok and ps[i] != ps[j];
			}
			put( ok );
		} else if( o.is( "copy" ) ) {
			M *n = new M( c );
			delete m;
			m = new M( );
			*m = std::move( *n );
			delete n;
		} else
			vt::bad_op( o );
	}
};
// construction from a list of items
template<typename K, typename V, std::size_t N, std::size_t I>
static daw::bounded_hash_map<K, V, N, TableHash<K>> from_array( std::vector<std::pair<K, V>> const &v ) {
	return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
		std::pair<K, V> const a[]{ v[Is]... };
		return daw::bounded_hash_map<K, V, N, TableHash<K>>( a );
	}( std::make_index_sequence<I>( ) );
}

template<typename K, typename V>
struct Maker {
	template<std::size_t N>
	static Base *mk( vt::Cfg const &c, std::string const &t ) {
		auto const &init = c.m.at( "init" ).v;
		if( t == "map" ) {
			auto *w = new MapW<K, V, N>;
			std::vector<std::pair<K, V>> items;
			for( auto const &e : init )
				items.emplace_back( KeyOf<K>::mk( e.v[0].n ), ValOf<V>::mk( e.v[1].n ) );
			if( init.size( ) == 1 )
				*w->m = from_array<K, V, N, 1>( items );
			else if constexpr( N >= 2 ) {
				if( init.size( ) == 2 )
					*w->m = from_array<K, V, N, 2>( items );
				else if( not init.empty( ) )
					*w->m = daw::bounded_hash_map<K, V, N, TableHash<K>>( items.begin( ), items.end( ) );
			}
			return w;
		}
		if( t == "set" ) {
			auto *w = new SetW<K, N>;
			for( auto const &e : init )
				w->m->insert( KeyOf<K>::mk( e.v[0].n ) );
			return w;
		}
		auto *w = new StaticW<K, V, N>( c );
		if( init.size( ) == 2 ) {
			if constexpr( std::is_same_v<K, int> )
				*w->m = daw::static_hash_t<V, N>( std::initializer_list<std::pair<int, V>>{ { static_cast<int>( init[0].v[0].n ), ValOf<V>::mk( init[0].v[1].n ) },
				                                    { static_cast<int>( init[1].v[0].n ), ValOf<V>::mk( init[1].v[1].n ) } } );
			else
				*w->m = daw::static_hash_t<V, N>{ { w->key( init[0].v[0].n ).c_str( ), ValOf<V>::mk( init[0].v[1].n ) },
				                                    { w->key( init[1].v[0].n ).c_str( ), ValOf<V>::mk( init[1].v[1].n ) } };
			for( auto const &e : init )
				w->present.push_back( e.v[0].n );
		}
		return w;
	}
	static Base *make( vt::Cfg const &c ) {
		auto const t = c.s( "t" );
		auto const n = c.i( "n" );
		choose_hashes( c.l( "sl" ), static_cast<std::size_t>( n ) );
		if( t == "vset" ) {
			auto *w = new VsetW<K>( static_cast<std::size_t>( n ) );
			for( auto const &e : c.m.at( "init" ).v )
				w->m->insert( KeyOf<K>::mk( e.v[0].n ) );
			return w;
		}
		switch( n ) {
		case 1:
			return mk<1>( c, t );
		case 2:
			return mk<2>( c, t );
		case 3:
			return mk<3>( c, t );
		case 4:
			return mk<4>( c, t );
		case 7:
			return mk<7>( c, t );
		}
		vt::bad_variant( "capacity" );
		return nullptr;
	}
};
struct Any {
	Base *w = nullptr;
	static inline std::string variant;
	Any( vt::Cfg const &c ) {
		if( variant == "int" )
			w = Maker<int, int>::make( c );
		else if( variant == "string" )
			w = Maker<std::string, std::string>::make( c );
		else
			vt::bad_variant( variant );
	}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
