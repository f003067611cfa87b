// sbo_storage (spec/Sbo.tla).
#include "trace.h"

#include <cstdint>
#include <memory>
#include <string>
#include <utility>

#include <daw/daw_sbo.h>

using vt::Int;
using vt::Op;
using vt::Res;

static Int live = 0, misplaced = 0, allocations = 0;
static Int throw_in = 0;

template<std::size_t Extra, std::size_t Align, bool Throws>
struct alignas( Align ) Obj {
	Int v;
	char extra[Extra];
	void born( ) {
		if( reinterpret_cast<std::uintptr_t>( this ) % Align != 0 )
			++misplaced;
		++live;
	}
	explicit Obj( Int x )
	  : v( x ) {
		born( );
	}
	Obj( Obj const &o )
	  : v( o.v ) {
		maybe( );
		born( );
	}
	Obj( Obj &&o ) noexcept( not Throws )
	  : v( o.v ) {
		maybe( );
		o.v = -7;
		born( );
	}
	static void maybe( ) {
		if( Throws and throw_in > 0 and --throw_in == 0 )
			throw 1;
	}
	Obj &operator=( Obj const & ) = default;
	~Obj( ) {
		--live;
	}
};
struct Agg {
	Int v;
	struct Count {
		Count( ) { ++live; }
		Count( Count const & ) { ++live; }
		~Count( ) { --live; }
	} c;
};
template<typename T>
struct Alloc {
	using value_type = T;
	Alloc( ) = default;
	template<typename U>
	Alloc( Alloc<U> const & ) {}
	T *allocate( std::size_t n ) {
		++allocations;
		return std::allocator<T>{ }.allocate( n );
	}
	void deallocate( T *p, std::size_t n ) {
		--allocations;
		std::allocator<T>{ }.deallocate( p, n );
	}
	bool operator==( Alloc const & ) const { return true; }
};
using K2 = Obj<1, 8, false>;
using K3 = Obj<200, 8, false>;
using K4 = Obj<1, 64, false>;
using K5 = Obj<200, 8, true>;
using K6 = Obj<1, 8, true>;
template<typename T>
static T make( Int v ) {
	if constexpr( std::is_same_v<T, Agg> )
		return T{ v, { } };
	else
		return T( v );
}
static Int &val( Int &x ) { return x; }
static Int const &val( Int const &x ) { return x; }
template<typename T>
static auto &val( T &x ) { return x.v; }

struct Store {
	virtual ~Store( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};
template<std::size_t Size>
struct StoreOf final : Store {
	using S = daw::sbo_storage<Size>;
	// not aligned to more than it asks for
	struct Place {
		alignas( 64 ) char pad[alignof( S )];
		S s{ };
	} p;
	Int stored = -1;
	~StoreOf( ) override {
		if( stored >= 0 )
			end( stored );
	}
	void end( Int k ) {
		stored = -1;
		switch( k ) {
		case 0: return p.s.template deallocate<Int>( );
		case 1: return p.s.template deallocate<Agg>( );
		case 2: return p.s.template deallocate<K2>( );
		case 3: return p.s.template deallocate<K3, Alloc<K3>>( );
		case 4: return p.s.template deallocate<K4, Alloc<K4>>( );
		case 5: return p.s.template deallocate<K5, Alloc<K5>>( );
		default: return p.s.template deallocate<K6, Alloc<K6>>( );
		}
	}
	template<typename T, typename A>
	void put( Int v, bool lvalue, Res &r ) {
		T x = make<T>( v );
		T *q = nullptr;
		if( lvalue )
			q = p.s.template allocate<T &, A>( x );
		else
			q = p.s.template allocate<T, A>( std::move( x ) );
		r.push_back( val( *q ) );
		r.push_back( q == p.s.template get<T>( ) ? val( *p.s.template get<T>( ) ) : -99 );
	}
	template<typename T>
	void with( Op const &o, Res &r ) {
		if( o.is( "get" ) )
			r.push_back( val( *p.s.template get<T>( ) ) );
		else if( o.is( "cget" ) ) {
			S const &c = p.s;
			r.push_back( val( *c.template get<T>( ) ) );
		} else if( o.is( "set" ) )
			val( *p.s.template get<T>( ) ) = o.i( 1 );
		else
			vt::bad_op( o );
	}
	void op( Op const &o, Res &r ) override {
		Int const k = o.i( 0 );
		if( o.is( "put" ) or o.is( "putl" ) ) {
			bool const l = o.is( "putl" );
			stored = k;
			switch( k ) {
			case 0: put<Int, std::allocator<Int>>( o.i( 1 ), l, r ); break;
			case 1: put<Agg, std::allocator<Agg>>( o.i( 1 ), l, r ); break;
			case 2: put<K2, std::allocator<K2>>( o.i( 1 ), l, r ); break;
			case 3: put<K3, Alloc<K3>>( o.i( 1 ), l, r ); break;
			case 4: put<K4, Alloc<K4>>( o.i( 1 ), l, r ); break;
			case 5: put<K5, Alloc<K5>>( o.i( 1 ), l, r ); break;
			default: put<K6, Alloc<K6>>( o.i( 1 ), l, r ); break;
			}
		} else if( o.is( "throw" ) ) {
			throw_in = 1;
			Int caught = 0;
			try {
				Res q;
				if( k == 5 )
					put<K5, Alloc<K5>>( 1, false, q );
				else
					put<K6, Alloc<K6>>( 1, false, q );
			} catch( int ) {
				caught = 1;
			}
			throw_in = 0;
			r.push_back( caught );
		} else if( o.is( "end" ) )
			end( k );
		else
			switch( k ) {
			case 0: with<Int>( o, r ); break;
			case 1: with<Agg>( o, r ); break;
			case 2: with<K2>( o, r ); break;
			case 3: with<K3>( o, r ); break;
			case 4: with<K4>( o, r ); break;
			case 5: with<K5>( o, r ); break;
			default: with<K6>( o, r ); break;
			}
		bool const some = p.s.engaged != S::engaged_types::none;
		r.insert( r.end( ), { -50, some, live, some ? 0 : allocations, misplaced } );
	}
};
struct World {
	inline static std::string variant;
	std::unique_ptr<Store> s;
	explicit World( vt::Cfg const &c ) {
		live = misplaced = allocations = 0;
		switch( c.i( "sz" ) ) {
		case 1: s = std::make_unique<StoreOf<1>>( ); break;
		case 24: s = std::make_unique<StoreOf<24>>( ); break;
		default: s = std::make_unique<StoreOf<256>>( ); break;
		}
	}
	void op( Op const &o, Res &r ) { s->op( o, r ); }
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
