// Conformance driver for the owning handles (spec/Owners.tla)
#include "trace.h"

#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_poly_value.h>
#include <daw/daw_ref_counted_pointer.h>
#include <daw/daw_unique_array.h>
#include <daw/daw_unique_ptr.h>
#include <daw/daw_value_ptr.h>
#include <daw/deprecated/daw_copiable_unique_ptr.h>

#include <memory>
#include <optional>

using vt::Int;
using vt::Op;
using vt::Res;

static Int child_live = 0;

struct Obj : vt::Tracked<true> {
	using vt::Tracked<true>::Tracked;
	Obj( ) = default;
	Obj( Obj const & ) = default;
	Obj( Obj && ) = default;
	Obj &operator=( Obj const & ) = default;
	Obj &operator=( Obj && ) = default;
	virtual ~Obj( ) = default;
	virtual Int tag( ) const {
		return 0;
	}
};
struct Child : Obj {
	Child( Int x )
	  : Obj( x ) {
		++child_live;
	}
	Child( Child const &o )
	  : Obj( o ) {
		++child_live;
	}
	Child( Child &&o )
	  : Obj( static_cast<Obj &&>( o ) ) {
		++child_live;
	}
	Child &operator=( Child const & ) = default;
	Child &operator=( Child && ) = default;
	~Child( ) override {
		--child_live;
	}
	Int tag( ) const override {
		return 1;
	}
};
struct Plain : vt::Tracked<true> { // no virtual destructor
	using vt::Tracked<true>::Tracked;
	Plain( ) = default;
};
inline bool operator==( Plain const &a, Plain const &b ) {
	return static_cast<vt::Tracked<true> const &>( a ) == static_cast<vt::Tracked<true> const &>( b );
}
inline bool operator<( Plain const &a, Plain const &b ) {
	return ( static_cast<vt::Tracked<true> const &>( a ) <=> static_cast<vt::Tracked<true> const &>( b ) ) < 0;
}

// custom deleters
static Int del_calls = 0;
struct CountDel {
	template<typename P>
	void operator( )( P *p ) const noexcept {
		++del_calls;
		delete p;
	}
};
struct ChkDel {
	using does_validity_check = void;
	template<typename P>
	void operator( )( P *p ) const noexcept {
		if( p == nullptr )
			return;
		delete p;
	}
};
struct CountDelA {
	template<typename P>
	void operator( )( P *p ) const noexcept {
		++del_calls;
		delete[] p;
	}
};
struct ChkDelA {
	using does_validity_check = void;
	template<typename P>
	void operator( )( P *p ) const noexcept {
		if( p == nullptr )
			return;
		delete[] p;
	}
};

template<typename H, typename E, int K, bool Arr>
struct KindBase {
	using type = H;
	using elem = E;
	static constexpr int k = K;
	static constexpr bool array = Arr;
};
template<typename H, typename E>
struct UniqueK : KindBase<H, E, 1, false> {
	static H *make( Int v, Int ) {
		return new H( new E( v ) );
	}
};
struct UniqueDef : UniqueK<daw::unique_ptr<Obj>, Obj> {
	static type *make( Int v, Int f ) {
		if( f )
			return new type( daw::make_unique<Obj>( v ) );
		return new type( new Obj( v ) );
	}
	static type *make_child( Int v, Int f ) {
		if( f )
			return new type( daw::make_unique<Child>( v ) );
		return new type( new Child( v ) );
	}
	static void assign_child( type &h, Int v ) {
		h = daw::make_unique<Child>( v );
	}
};
struct MaybeDef : UniqueK<daw::maybe_unique_ptr<Obj>, Obj> {
	static type *make( Int v, Int f ) {
		if( f )
			return new type( daw::make_maybe_unique<Obj>( v ) );
		return new type( new Obj( v ), true );
	}
	static type *make_child( Int v, Int f ) {
		if( f )
			return new type( daw::make_unique<Child>( v ) );
		return new type( new Child( v ) );
	}
	static void assign_child( type &h, Int v ) {
		h = daw::maybe_unique_ptr<Obj>( new Child( v ) );
	}
};
template<typename H, typename E>
struct UArrK : KindBase<H, E, 2, true> {
	static H *make( Int v, Int ) {
		return new H( new E[2]{ E( v ), E( v ) } );
	}
};
struct UArrDef : UArrK<daw::unique_ptr<Plain[]>, Plain> {
	static type *make( Int v, Int f ) {
		if( f ) {
			auto p = daw::make_unique<Plain[]>( 2 );
			p[0] = Plain( v );
			p[1] = Plain( v );
			return new type( std::move( p ) );
		}
		return new type( daw::make_unique_array<Plain[]>( Plain( v ), Plain( v ) ) );
	}
};
struct ValueK : KindBase<daw::value_ptr<Plain>, Plain, 1, false> {
	static type *make( Int v, Int f ) {
		if( f ) {
			Plain p( v );
			return new type( p );
		}
		return new type( v );
	}
};
struct PolyK : KindBase<daw::poly_value<Obj>, Obj, 1, false> {
	static type *make( Int v, Int f ) {
		if( f )
			return new type( daw::construct_emplace<Obj>, v );
		Obj o( v );
		return new type( o );
	}
	static type *make_child( Int v, Int f ) {
		if( f )
			return new type( daw::construct_emplace<Child>, v );
		return new type( Child( v ) );
	}
};
struct CopiableK : KindBase<daw::copiable_unique_ptr<Plain>, Plain, 1, false> {
	static type *make( Int v, Int f ) {
		if( f )
			return new type( daw::make_copiable_unique_ptr<Plain>( v ) );
		return new type( new Plain( v ) );
	}
};
struct UatK : KindBase<daw::unique_array_t<Plain>, Plain, 2, true> {
	static type *make( Int v, Int ) {
		auto *p = new type( std::size_t{ 2 } );
		for( auto &x : *p )
			x = Plain( v );
		return p;
	}
};
template<typename D>
struct RcK : KindBase<daw::rc_ptr<Plain, D>, Plain, 1, false> {
	using type = daw::rc_ptr<Plain, D>;
	static type *make( Int v, Int f ) {
		if constexpr( std::is_same_v<D, daw::default_pointer_deleter<Plain>> )
			if( f )
				return new type( daw::make_rc_ptr<Plain>( v ) );
		return new type( new Plain( v ) );
	}
};
template<typename D>
struct RcArrK : KindBase<daw::rc_ptr<Plain[], D>, Plain, 2, true> {
	using type = daw::rc_ptr<Plain[], D>;
	static type *make( Int v, Int f ) {
#ifdef HAVE_MAKE_RC_ARRAY
		if constexpr( std::is_same_v<D, daw::default_pointer_deleter<Plain[]>> )
			if( f ) {
				auto p = v % 2 ? daw::make_rc_ptr<Plain[]>( std::size_t{ 2 } ) : daw::make_rc_ptr_for_overwrite<Plain[]>( std::size_t{ 2 } );
				p[0] = Plain( v );
				p[1] = Plain( v );
				return new type( std::move( p ) );
			}
#endif
		return new type( new Plain[2]{ Plain( v ), Plain( v ) } );
	}
};

struct WorldBase {
	virtual ~WorldBase( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

template<typename K>
struct World : WorldBase {
	using H = typename K::type;
	using E = typename K::elem;
	std::vector<H *> h;
	E *raw = nullptr;
	World( vt::Cfg const &c )
	  : h( static_cast<std::size_t>( c.i( "n" ) ), nullptr ) {
		child_live = 0;
	}
	~World( ) override {
		for( auto *p : h )
			delete p;
		del_raw( );
		if( child_live != 0 )
			++vt::errs;
	}
	void del_raw( ) {
		if constexpr( K::array )
			delete[] raw;
		else
			delete raw;
		raw = nullptr;
	}
	static E *get( H const &x ) {
		if constexpr( requires { x.get( ); } )
			return const_cast<E *>( x.get( ) );
		else
			return x.begin( ) == nullptr ? nullptr : const_cast<E *>( x.begin( ) );
	}
	static Int val( H &x ) {
		H const &cx = x;
		E *p = get( x );
		Int v = p->v;
		bool ok = true;
		if constexpr( requires { *x; } )
			ok = ok and std::addressof( *x ) == p and std::addressof( *cx ) == p;
		if constexpr( requires { x.operator->( ); } )
			ok = ok and x.operator->( ) == p and cx.operator->( ) == p;
		if constexpr( K::array ) {
			ok = ok and &x[0] == p and &x[1] == p + 1 and p[1].v == v;
		}
		if constexpr( requires { static_cast<E &>( x ); } and not K::array )
			ok = ok and std::addressof( static_cast<E &>( x ) ) == p;
		if constexpr( requires { x.front( ); } )
			ok = ok and x.size( ) == 2 and x.capacity( ) == 2 and &x.front( ) == p and &cx.back( ) == p + 1 and x.end( ) == p + 2 and
			     cx.cbegin( ) == p and cx.cend( ) == p + 2;
		vt::Tracked<true>::chk( *p );
		return ok ? v : -99;
	}
	static bool truth( H &x ) {
		if constexpr( requires { static_cast<bool>( x ); } and not std::is_same_v<H, daw::poly_value<Obj>> )
			return static_cast<bool>( x );
		else if constexpr( requires { x.empty( ); } )
			return not x.empty( );
		else
			return get( x ) != nullptr;
	}
	Int rep( E *p ) {
		if( p == nullptr )
			return 0;
		for( std::size_t i = 0; i < h.size( ); ++i )
			if( h[i] and get( *h[i] ) == p )
				return static_cast<Int>( i + 1 );
		return static_cast<Int>( h.size( ) + 1 );
	}
	void observe( Res &r ) {
		for( auto *x : h ) {
			if( x == nullptr ) {
				r.insert( r.end( ), { 0, 0, 0, 0 } );
				continue;
			}
			E *p = get( *x );
			if( truth( *x ) != ( p != nullptr ) )
				r.push_back( 9 );
			else
				r.push_back( p ? 2 : 1 );
			r.push_back( p ? val( *x ) : 0 );
			r.push_back( rep( p ) );
			if constexpr( requires { x->ref_count( ); } ) {
				Int n = p ? static_cast<Int>( x->ref_count( ) ) : 0;
				if( p and static_cast<H const *>( x )->ref_count( ) != static_cast<std::size_t>( n ) )
					n = -98;
				if( ( *x == nullptr ) != ( p == nullptr ) or ( *x != nullptr ) != ( p != nullptr ) )
					n = -97;
				r.push_back( n );
			} else
				r.push_back( 0 );
		}
		r.push_back( raw ? raw->v : 0 );
		r.push_back( rep( raw ) );
	}
	void op( Op const &o, Res &r ) override {
		Int const d0 = vt::destroyed;
		Res x;
		Int nobs = K::k; // temporaries made by the driver itself
		Int own_tmp = 0;
		(void)nobs;
		auto a = o.a.empty( ) ? 0U : o.u( 0 ) - 1U;
		bool done = true;
		if( o.is( "new" ) ) {
			Int const t0 = vt::destroyed;
			h[a] = K::make( o.i( 1 ), o.i( 2 ) );
			own_tmp = vt::destroyed - t0;
		} else if( o.is( "newc" ) ) {
			if constexpr( requires { K::make_child( Int( ), Int( ) ); } ) {
				Int const t0 = vt::destroyed;
				h[a] = K::make_child( o.i( 1 ), o.i( 2 ) );
				own_tmp = vt::destroyed - t0;
				if( get( *h[a] )->tag( ) != 1 )
					++vt::errs;
			} else {
				Int const t0 = vt::destroyed;
				h[a] = K::make( o.i( 1 ), o.i( 2 ) );
				own_tmp = vt::destroyed - t0;
			}
		} else if( o.is( "cvassign" ) ) {
			if constexpr( requires { K::assign_child( *h[a], Int( ) ); } ) {
				K::assign_child( *h[a], o.i( 1 ) );
				if( get( *h[a] )->tag( ) != 1 )
					++vt::errs;
			} else if constexpr( requires { h[a]->reset( static_cast<E *>( nullptr ) ); } )
				h[a]->reset( new E( o.i( 1 ) ) );
			else
				done = false;
		} else if( o.is( "null" ) ) {
			if constexpr( std::is_same_v<K, ValueK> )
				h[a] = new H( std::nullopt );
			else if constexpr( requires { H( nullptr ); } and not std::is_same_v<K, UatK> and not requires( H q ) { q.ref_count( ); } )
				h[a] = o.i( 1 ) ? new H( nullptr ) : new H( );
			else if constexpr( requires( H q ) { q.ref_count( ); } )
				h[a] = o.i( 1 ) ? new H( static_cast<E *>( nullptr ) ) : new H( );
			else if constexpr( std::is_default_constructible_v<H> )
				h[a] = new H( );
			else
				done = false;
		} else if( o.is( "del" ) ) {
			auto *p = h[a];
			h[a] = nullptr;
			delete p;
		} else if( o.is( "reset" ) ) {
			if constexpr( requires { h[a]->reset( ); } )
				h[a]->reset( );
			else
				done = false;
		} else if( o.is( "mctor" ) ) {
			h[a] = new H( std::move( *h[o.u( 1 ) - 1] ) );
		} else if( o.is( "massign" ) ) {
			H &src = *h[o.u( 1 ) - 1];
			*h[a] = std::move( src );
		} else if( o.is( "cctor" ) ) {
			if constexpr( std::is_copy_constructible_v<H> )
				h[a] = new H( *h[o.u( 1 ) - 1] );
			else
				done = false;
		} else if( o.is( "cassign" ) ) {
			if constexpr( std::is_copy_assignable_v<H> ) {
				H const &src = *h[o.u( 1 ) - 1];
				*h[a] = src;
			} else
				done = false;
		} else if( o.is( "swap" ) ) {
			H &y = *h[o.u( 1 ) - 1];
			if constexpr( requires { h[a]->swap( y ); } ) {
				if( o.i( 2 ) )
					h[a]->swap( y );
				else {
					using std::swap;
					swap( *h[a], y );
				}
			} else
				std::swap( *h[a], y );
		} else if( o.is( "resetp" ) ) {
			if constexpr( requires { h[a]->reset( static_cast<E *>( nullptr ) ); } )
				h[a]->reset( new E( o.i( 1 ) ) );
			else
				done = false;
		} else if( o.is( "release" ) ) {
			if constexpr( requires { h[a]->release( ); } ) {
				E *p = h[a]->release( );
				x.push_back( p ? p->v : 0 );
				if( p )
					raw = p;
			} else
				done = false;
		} else if( o.is( "newraw" ) ) {
			if constexpr( K::array )
				raw = new E[2]{ E( o.i( 0 ) ), E( o.i( 0 ) ) };
			else
				raw = new E( o.i( 0 ) );
		} else if( o.is( "delraw" ) ) {
			del_raw( );
		} else if( o.is( "adopt" ) ) {
			E *p = raw;
			raw = nullptr;
			if( h[a] == nullptr ) {
				if constexpr( requires { H( p ); } )
					h[a] = new H( p );
				else
					done = false;
			} else {
				if constexpr( requires { h[a]->reset( p ); } )
					h[a]->reset( p );
				else
					done = false;
			}
		} else if( o.is( "lend" ) ) {
			if constexpr( requires { h[a]->reset( raw, false ); } ) {
				if( h[a] == nullptr )
					h[a] = new H( raw, false );
				else
					h[a]->reset( raw, false );
			} else
				done = false;
		} else if( o.is( "set" ) ) {
			if constexpr( K::array ) {
				( *h[a] )[0].v = o.i( 1 );
				( *h[a] )[1].v = o.i( 1 );
			} else if( o.i( 2 ) )
				( **h[a] ).v = o.i( 1 );
			else
				( *h[a] ).operator->( )->v = o.i( 1 );
		} else if( o.is( "assignv" ) ) {
			if constexpr( std::is_same_v<K, ValueK> ) {
				E v( o.i( 1 ) );
				if( o.i( 2 ) )
					*h[a] = std::as_const( v );
				else
					*h[a] = std::move( v );
			} else
				done = false;
		} else if( o.is( "getout" ) ) {
			if constexpr( requires { h[a]->get_out( ); } )
				*h[a]->get_out( ) = new E( o.i( 1 ) );
			else
				done = false;
		} else if( o.is( "and_then" ) ) {
			if constexpr( requires { std::move( *h[a] ).and_then( []( H ) { return 0; } ); } ) {
				Int called = 0;
				Int v = std::move( *h[a] ).and_then( [&]( H p ) -> Int {
					++called;
					return get( p )->v;
				} );
				x = { called, v };
			} else
				done = false;
		} else if( o.is( "or_else" ) ) {
			if constexpr( requires { std::move( *h[a] ).or_else( [] { return H( ); } ); } ) {
				Int called = 0;
				H tmp = std::move( *h[a] ).or_else( [&] {
					++called;
					if constexpr( K::array )
						return H( new E[2]{ E( o.i( 1 ) ), E( o.i( 1 ) ) } );
					else
						return H( new E( o.i( 1 ) ) );
				} );
				*h[a] = std::move( tmp );
				x = { called };
			} else
				done = false;
		} else if( o.is( "transform" ) ) {
			if constexpr( requires { h[a]->transform( []( H const & ) { return 0; } ); } ) {
				Int called = 0;
				Int v = h[a]->transform( [&]( H const &p ) -> Int {
					++called;
					return p ? get( p )->v : 0;
				} );
				x = { called, v };
			} else
				done = false;
		} else if( o.is( "at" ) ) {
			if constexpr( requires { h[a]->at( std::size_t{ } ); } ) {
				try {
					Int v = o.i( 2 ) ? h[a]->at( o.u( 1 ) ).v : std::as_const( *h[a] ).at( o.u( 1 ) ).v;
					x = { 0, v };
				} catch( std::out_of_range const & ) { x = { 1 }; }
			} else
				done = false;
		} else if( o.is( "cmp" ) ) {
			H const &p = *h[a];
			H const &q = *h[o.u( 1 ) - 1];
			if constexpr( std::is_same_v<K, CopiableK> )
				x = { p == q, p != q };
			else if constexpr( requires { p < q; } )
				x = { p == q, p != q, p < q, p <= q, p > q, p >= q };
			else
				done = false;
		} else
			vt::bad_op( o );
		if( not done )
			vt::bad_op( o );
		r.push_back( vt::live );
		bool const counts = not std::is_same_v<K, ValueK> and not std::is_same_v<K, PolyK> and not std::is_same_v<K, CopiableK>;
		r.push_back( counts ? vt::destroyed - d0 - own_tmp : -1 );
		Int const d1 = vt::destroyed;
		observe( r );
		if( vt::destroyed != d1 )
			++vt::errs; // observing must not destroy anything
		r.insert( r.end( ), x.begin( ), x.end( ) );
	}
};

template<typename E>
using D = daw::default_pointer_deleter<E>;

static WorldBase *make_world( std::string const &variant, vt::Cfg const &c ) {
	auto k = c.s( "kind" );
	bool const del = variant == "del", chk = variant == "chk";
	if( not del and not chk and variant != "def" )
		vt::bad_variant( variant );
#if GRP == 0
	if( k == "unique" ) {
		if( del )
			return new World<UniqueK<daw::unique_ptr<Obj, CountDel>, Obj>>( c );
		if( chk )
			return new World<UniqueK<daw::unique_ptr<Obj, ChkDel>, Obj>>( c );
		return new World<UniqueDef>( c );
	}
	if( k == "uarr" ) {
		if( del )
			return new World<UArrK<daw::unique_ptr<Plain[], CountDelA>, Plain>>( c );
		if( chk )
			return new World<UArrK<daw::unique_ptr<Plain[], ChkDelA>, Plain>>( c );
		return new World<UArrDef>( c );
	}
	if( k == "maybe" ) {
		if( del )
			return new World<UniqueK<daw::maybe_unique_ptr<Obj, CountDel>, Obj>>( c );
		if( chk )
			return new World<UniqueK<daw::maybe_unique_ptr<Obj, ChkDel>, Obj>>( c );
		return new World<MaybeDef>( c );
	}
#elif GRP == 1
	if( k == "value" )
		return new World<ValueK>( c );
	if( k == "poly" )
		return new World<PolyK>( c );
	if( k == "copiable" )
		return new World<CopiableK>( c );
	if( k == "uat" )
		return new World<UatK>( c );
#else
	if( k == "rc" ) {
		if( del )
			return new World<RcK<CountDel>>( c );
		return new World<RcK<D<Plain>>>( c );
	}
	if( k == "rcarr" ) {
		if( del )
			return new World<RcArrK<CountDelA>>( c );
		return new World<RcArrK<D<Plain[]>>>( c );
	}
#endif
	vt::bad_variant( variant + "/" + k );
}
struct Any {
	WorldBase *w;
	static inline std::string variant;
	Any( vt::Cfg const &c )
	  : w( make_world( variant, c ) ) {}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
