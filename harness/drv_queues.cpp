// Conformance driver for ring_adaptor and the bit and nibble queues (spec/Queues.tla)
#include "trace.h"

#include <array>
#include <cstddef>
#include <cstdint>
#include <memory>
#include <span>
#include <string>
#include <vector>

#include <daw/daw_bit_queues.h>
#include <daw/daw_ring_adaptor.h>

using vt::Int;
using vt::Op;
using vt::Res;

template<typename T>
static T mk( Int i ) {
	if constexpr( std::is_same_v<T, std::string> )
		return std::string( static_cast<std::size_t>( i ) * 20, 'r' );
	else
		return static_cast<T>( i );
}
template<typename T>
static Int un( T const &v ) {
	if constexpr( std::is_same_v<T, std::string> )
		return static_cast<Int>( v.size( ) / 20 );
	else
		return static_cast<Int>( v );
}
struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<typename Container, typename T>
struct RingW : Base {
	using M = daw::ring_adaptor<Container>;
	std::vector<T> store;
	std::unique_ptr<M> m;
	explicit RingW( std::size_t n )
	  : store( n ) {
		if constexpr( std::is_same_v<Container, std::vector<T>> )
			m = std::make_unique<M>( n );
		else if constexpr( std::is_same_v<Container, std::span<T>> )
			m = std::make_unique<M>( store.data( ), n );
		else
			m = std::make_unique<M>( );
	}
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		auto const pos = [&]( std::size_t i ) {
			return static_cast<std::size_t>( o.i( i ) );
		};
		M &v = *m;
		M const &c = v;
		if( o.is( "push" ) ) {
			T const x = mk<T>( o.i( 0 ) );
			put( un( v.push_back( x ) ) );
		} else if( o.is( "pushm" ) )
			put( un( v.push_back( mk<T>( o.i( 0 ) ) ) ) );
		else if( o.is( "emplace" ) ) {
			auto &e = v.emplace_back( mk<T>( o.i( 0 ) ) );
			put( un( e ) );
			if( &e != &v[v.size( ) - 1] )
				put( -1000 );
		} else if( o.is( "pushself" ) )
			put( un( v.push_back( std::as_const( v[pos( 0 )] ) ) ) );
		else if( o.is( "popf" ) )
			put( un( v.pop_front( ) ) );
		else if( o.is( "clear" ) )
			v.clear( );
		else if( o.is( "set" ) ) {
			if( o.s( 2 ) == "idx" )
				v[pos( 0 )] = mk<T>( o.i( 1 ) );
			else {
				auto it = v.begin( );
				for( Int i = 0; i < o.i( 0 ); ++i )
					++it;
				*it = mk<T>( o.i( 1 ) );
			}
		} else if( o.is( "get" ) ) {
			put( un( v[pos( 0 )] ) );
			put( un( c[pos( 0 )] ) );
		} else if( o.is( "list" ) ) {
			Res a, b;
			for( auto const &e : v )
				a.push_back( un( e ) );
			for( auto i = c.begin( ); i != c.end( ); ++i )
				b.push_back( un( *i ) );
			for( auto x : a )
				r.push_back( x );
			if( not( a == b ) )
				put( -1000 );
		} else if( o.is( "meta" ) ) {
			put( c.size( ) );
			put( c.is_empty( ) );
			put( c.is_full( ) );
			put( c.capacity( ) );
		} else if( o.is( "copy" ) ) {
			if constexpr( not std::is_array_v<Container> ) {
				M x( c );
				m = std::make_unique<M>( std::move( x ) );
			} else {
				M x;
				x = c;
				v = M{ };
				v = std::move( x );
			}
		} else
			vt::bad_op( o );
	}
};
template<typename U>
static void put_bits( Res &r, U x, std::size_t n ) {
	auto y = static_cast<std::uint64_t>( x );
	for( std::size_t i = 0; i < n; ++i )
		r.push_back( static_cast<Int>( ( y >> ( n - 1 - i ) ) & 1U ) );
}
template<typename U>
static U bits_of( std::vector<Int> const &b ) {
	std::uint64_t y = 0;
	for( Int x : b )
		y = ( y << 1U ) | static_cast<std::uint64_t>( x );
	return static_cast<U>( y );
}
template<typename Q, typename V, typename E>
struct BitW : Base {
	using M = daw::basic_bit_queue<Q, V, E>;
	M m{ };
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		std::size_t const vb = sizeof( V ) * 8;
		M const &c = m;
		if( o.is( "bpush" ) )
			m.push_back( bits_of<V>( o.l( 0 ) ), static_cast<std::size_t>( o.i( 1 ) ) );
		else if( o.is( "bpushall" ) )
			m.push_back( bits_of<V>( o.l( 0 ) ) );
		else if( o.is( "bpopf" ) )
			put_bits( r, m.pop_front( static_cast<std::size_t>( o.i( 0 ) ) ), vb );
		else if( o.is( "bpopb" ) )
			put_bits( r, m.pop_back( static_cast<std::size_t>( o.i( 0 ) ) ), vb );
		else if( o.is( "bmeta" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			put( c.full( ) );
			put( M::capacity( ) );
			for( std::size_t i = 0; i < sizeof( Q ) * 8 + 2; ++i )
				put( c.can_pop( i ) );
		} else if( o.is( "value" ) )
			put_bits( r, c.value( ), sizeof( Q ) * 8 );
		else if( o.is( "bclear" ) )
			m.clear( );
		else if( o.is( "popall" ) )
			put_bits( r, m.pop_all( ), vb );
		else if( o.is( "ctor" ) )
			m = M( bits_of<Q>( o.l( 0 ) ) );
		else if( o.is( "bcopy" ) ) {
			M n( c );
			m.clear( );
			m = n;
		} else
			vt::bad_op( o );
	}
};
template<typename Q, typename V>
struct NibW : Base {
	using M = daw::basic_nibble_queue<Q, V>;
	M m{ };
	void op( Op const &o, Res &r ) override {
		auto put = [&]( auto x ) {
			r.push_back( static_cast<Int>( x ) );
		};
		std::size_t const vb = sizeof( V ) * 8;
		M const &c = m;
		if( o.is( "npush" ) )
			m.push_back( bits_of<V>( o.l( 0 ) ) );
		else if( o.is( "npushn" ) )
			m.push_back( bits_of<V>( o.l( 0 ) ), static_cast<std::size_t>( o.i( 1 ) ) );
		else if( o.is( "npopf" ) )
			put_bits( r, m.pop_front( static_cast<std::size_t>( o.i( 0 ) ) ), vb );
		else if( o.is( "npopfd" ) )
			put_bits( r, m.pop_front( ), vb );
		else if( o.is( "nmeta" ) ) {
			put( c.size( ) );
			put( c.empty( ) );
			put( c.full( ) );
			put( c.capacity( ) );
			put( c.can_pop( ) );
			for( std::size_t i = 0; i < sizeof( Q ) * 2 + 2; ++i )
				put( c.can_pop( i ) );
		} else if( o.is( "value" ) )
			put_bits( r, c.value( ), sizeof( Q ) * 8 );
		else if( o.is( "bclear" ) )
			m.clear( );
		else if( o.is( "popall" ) )
			put_bits( r, m.pop_all( ), vb );
		else if( o.is( "ctor" ) )
			m = M( bits_of<Q>( o.l( 0 ) ) );
		else if( o.is( "bcopy" ) ) {
			M n( c );
			m.clear( );
			m = n;
		} else
			vt::bad_op( o );
	}
};
using U8 = std::uint8_t;
using U16 = std::uint16_t;
using U32 = std::uint32_t;
using U64 = std::uint64_t;
struct World {
	static inline std::string variant;
	std::unique_ptr<Base> b;
	template<typename Q, typename V>
	void bits( vt::Cfg const &c ) {
		if( c.s( "t" ) == "nib" )
			b = std::make_unique<NibW<Q, V>>( );
		else if( c.s( "e" ) == "big" )
			b = std::make_unique<BitW<Q, V, daw::bit_queue_source_big_endian>>( );
		else
			b = std::make_unique<BitW<Q, V, daw::bit_queue_source_native_endian>>( );
	}
	template<typename Q>
	void bits_v( vt::Cfg const &c ) {
		switch( c.i( "v" ) ) {
		case 8:
			bits<Q, U8>( c );
			break;
		case 16:
			bits<Q, U16>( c );
			break;
		case 32:
			bits<Q, U32>( c );
			break;
		default:
			bits<Q, U64>( c );
		}
	}
	template<std::size_t N>
	void ring( ) {
		if( variant == "array" )
			b = std::make_unique<RingW<int[N], int>>( N );
		else if( variant == "stdarray" )
			b = std::make_unique<RingW<std::array<std::string, N>, std::string>>( N );
		else if( variant == "vector" )
			b = std::make_unique<RingW<std::vector<std::string>, std::string>>( N );
		else if( variant == "span" )
			b = std::make_unique<RingW<std::span<int>, int>>( N );
		else
			vt::bad_variant( variant );
	}
	explicit World( vt::Cfg const &c ) {
		Int const n = c.i( "n" );
		if( c.s( "t" ) == "ring" ) {
			switch( n ) {
			case 1:
				ring<1>( );
				break;
			case 2:
				ring<2>( );
				break;
			case 3:
				ring<3>( );
				break;
			case 4:
				ring<4>( );
				break;
			case 7:
				ring<7>( );
				break;
			case 16:
				ring<16>( );
				break;
			default:
				vt::bad_variant( "capacity" );
			}
			return;
		}
		switch( n ) {
		case 8:
			bits_v<U8>( c );
			break;
		case 16:
			bits_v<U16>( c );
			break;
		case 32:
			bits_v<U32>( c );
			break;
		default:
			bits_v<U64>( c );
		}
	}
	void op( Op const &o, Res &r ) {
		b->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
