// Iterator adaptors under navigation (spec/Nav.tla)
#include "trace.h"

#include <cassert>
#include <forward_list>
#include <list>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include <daw/daw_exception.h>
#include <daw/iterator/InputIterator.h>
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_random_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_reverse_iterator.h>
#include <daw/iterator/daw_zipiter.h>
#include <daw/wrap_iter.h>

using vt::Cfg;
using vt::Int;
using vt::Op;
using vt::Res;

struct E {
	Int v = 0;
	Int tag = 0;
	bool operator==( E const & ) const = default;
};

inline Int value( E const &e ) {
	return e.v;
}
template<std::integral T>
Int value( T x ) {
	return static_cast<Int>( x );
}
inline Int value( std::string_view s ) {
	return std::stoll( std::string( s ) );
}
template<typename A, typename B>
Int value( std::tuple<A, B> const &t ) {
	return std::get<0>( t ).v * 100 + std::get<1>( t ).v;
}
template<typename T>
Int value( daw::find_one_element<T> const &x ) {
	return x.value.v + ( x.index == 1 ? 100 : x.index == 0 ? 0 : 1000 );
}

struct Odd {
	bool operator( )( E const &e ) const {
		return e.tag % 2 == 1;
	}
};
struct High {
	bool operator( )( E const &e ) const {
		return e.tag >= 2;
	}
};
inline bool odd_fn( E const &e ) {
	return e.tag % 2 == 1;
}

// iterators that own something: what they hold must be released with the type it was made with
template<int Tag>
struct Owning {
	using value_type = E;
	using reference = E const &;
	using pointer = E const *;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::forward_iterator_tag;
	E const *p = nullptr;
	std::unique_ptr<Int[]> owned{ new Int[1 + Tag]{ } };
	vt::Tracked<true> tracked{ Tag };
	Int pad[1 + Tag * 3]{ };

	explicit Owning( E const *x )
	  : p( x ) {}
	Owning( Owning const &o )
	  : p( o.p )
	  , tracked( o.tracked ) {}
	Owning &operator=( Owning const &o ) {
		p = o.p;
		return *this;
	}
	reference operator*( ) const {
		return *p;
	}
	pointer operator->( ) const {
		return p;
	}
	Owning &operator++( ) {
		++p;
		return *this;
	}
	Owning operator++( int ) {
		auto r = *this;
		++p;
		return r;
	}
	bool operator==( Owning const &o ) const {
		return p == o.p and tracked.v == o.tracked.v;
	}
	bool operator!=( Owning const &o ) const {
		return not( *this == o );
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

struct Source {
	std::size_t n;
	Int z;
	std::vector<E> v;
	std::list<E> l;
	std::forward_list<E> f;
	std::list<E> second;
	std::vector<std::string> strings;
	std::vector<char const *> argv;
	Source( Cfg const &c )
	  : n( static_cast<std::size_t>( c.i( "n" ) ) )
	  , z( c.i( "z" ) ) {
		auto const k = c.s( "k" );
		Int const base = k.rfind( "find", 0 ) == 0 ? 2 : 4;
		Int m = z;
		std::size_t const total = k == "chunk" ? n * static_cast<std::size_t>( z ) : n;
		for( std::size_t i = 0; i < total; ++i ) {
			v.push_back( { static_cast<Int>( 10 + i ), m % base } );
			l.push_back( v.back( ) );
			second.push_back( { static_cast<Int>( 20 + i ), 0 } );
			strings.push_back( std::to_string( 10 + i ) );
			m /= base;
		}
		f.assign( v.begin( ), v.end( ) );
		for( auto const &s : strings )
			argv.push_back( s.c_str( ) );
		argv.push_back( nullptr );
	}
};

template<typename F>
struct Nav final : Base {
	F fac;
	using It = decltype( fac.begin( ) );
	It a;
	It b;

	explicit Nav( Cfg const &c )
	  : fac( c )
	  , a( fac.begin( ) )
	  , b( fac.begin( ) ) {}

	Int at( It &x, It &last ) {
		if( x == last )
			return -1;
		return value( *x );
	}
	Int at( It &x ) {
		auto last = fac.end( );
		return at( x, last );
	}

	template<typename G>
	static void refusing( Res &r, G &&g ) {
		try {
			r.push_back( g( ) );
		} catch( std::out_of_range const & ) { r.push_back( -9 ); }
	}

	void rel( It &x, It &y, Res &r ) {
		r.push_back( x == y );
		r.push_back( x != y );
		if constexpr( F::ordered ) {
			r.push_back( x < y );
			r.push_back( x > y );
			r.push_back( x <= y );
			r.push_back( x >= y );
		}
	}

	void op( Op const &o, Res &r ) override {
		bool const second = not o.a.empty( ) and o.i( 0 ) == 2;
		It &x = second ? b : a;
		It &y = second ? a : b;
		auto const d = o.a.size( ) > 1 ? static_cast<std::ptrdiff_t>( o.i( 1 ) ) : std::ptrdiff_t{ 0 };
		bool done = true;
		if( o.is( "begin" ) )
			x = fac.begin( );
		else if( o.is( "end" ) )
			x = fac.end( );
		else if( o.is( "move" ) ) {
			auto tmp = fac.begin( );
			x = std::move( tmp );
		} else if( o.is( "copy" ) ) {
			It tmp( y );
			x = tmp;
		} else if( o.is( "pre++" ) )
			refusing( r, [&] {
				auto &&ref = ++x;
				static_assert( std::is_lvalue_reference_v<decltype( ref )> );
				if( &ref != &x )
					return Int{ -99 };
				return at( x );
			} );
		else if( o.is( "post++" ) )
			refusing( r, [&] {
				It old = x++;
				return at( old );
			} );
		else if( o.is( "rel" ) ) {
			rel( a, b, r );
			if constexpr( F::jumps ) {
				r.push_back( static_cast<Int>( a - b ) );
				r.push_back( static_cast<Int>( b - a ) );
			}
		} else
			done = false;
		if constexpr( F::back )
			if( not done ) {
				done = true;
				if( o.is( "pre--" ) )
					refusing( r, [&] {
						auto &&ref = --x;
						if( &ref != &x )
							return Int{ -99 };
						return at( x );
					} );
				else if( o.is( "post--" ) )
					refusing( r, [&] {
						It old = x--;
						return at( old );
					} );
				else
					done = false;
			}
		if constexpr( F::jumps )
			if( not done ) {
				done = true;
				if( o.is( "+=" ) ) {
					auto &&ref = x += static_cast<typename F::diff>( d );
					r.push_back( &ref == &x ? at( x ) : -99 );
				} else if( o.is( "-=" ) ) {
					auto &&ref = x -= static_cast<typename F::diff>( d );
					r.push_back( &ref == &x ? at( x ) : -99 );
				} else if( o.is( "+" ) ) {
					It res = x + static_cast<typename F::diff>( d );
					r.push_back( at( res ) );
					if constexpr( requires { d + x; } ) {
						It other = d + x;
						if( other != res )
							r.back( ) = -99;
					}
					if constexpr( requires { x.next( d ); } ) {
						It other = x.next( d );
						if( other != res )
							r.back( ) = -98;
					}
				} else if( o.is( "-" ) ) {
					It res = x - static_cast<typename F::diff>( d );
					r.push_back( at( res ) );
					if constexpr( requires { x.prev( d ); } ) {
						It other = x.prev( d );
						if( other != res )
							r.back( ) = -98;
					}
				} else
					done = false;
			}
		if( not done )
			fac.more( *this, x, o, d, r );
		fac.dump( *this, r );
	}
};

// what most adaptors share
template<typename Derived>
struct Common : Source {
	using Source::Source;
	using diff = std::ptrdiff_t;
	static constexpr bool back = true;
	static constexpr bool jumps = true;
	static constexpr bool ordered = true;
	static constexpr bool no_arrow = false;
	template<typename N>
	void dump( N &nav, Res &r ) {
		r.push_back( nav.at( nav.a ) );
		r.push_back( nav.at( nav.b ) );
		r.push_back( nav.a == nav.b );
	}
	template<typename N, typename It>
	void more( N &nav, It &x, Op const &o, std::ptrdiff_t d, Res &r ) {
		(void)d;
		if( o.is( "[]" ) ) {
			if constexpr( Derived::jumps ) {
				if constexpr( requires { x[static_cast<typename Derived::diff>( d )]; } )
					r.push_back( value( x[static_cast<typename Derived::diff>( d )] ) );
			}
		} else if( o.is( "->" ) ) {
			nav.refusing( r, [&] {
				if constexpr( Derived::no_arrow )
					return Int{ -97 };
				else if constexpr( requires { x->v; } )
					return x->v;
				else if constexpr( requires { *x.operator->( ).operator->( ); } )
					return value( *x.operator->( ).operator->( ) );
				else if constexpr( requires { *x.operator->( ); } )
					return value( *x.operator->( ) );
				else
					return Int{ -97 };
			} );
		} else if( o.is( "steps" ) ) {
			if constexpr( requires { x.distance( ); } )
				r.push_back( static_cast<Int>( x.distance( ) ) );
		} else if( o.is( "adv" ) ) {
			if constexpr( requires { x.advance( d ); } )
				x.advance( d );
			else
				r.push_back( -97 );
			r.push_back( nav.at( x ) );
		} else if( o.is( "deref" ) )
			nav.refusing( r, [&] {
				Int const res = value( *x );
				if constexpr( requires { *std::as_const( x ); } ) {
					if( value( *std::as_const( x ) ) != res )
						return Int{ -99 };
				}
				return res;
			} );
		else
			vt::bad_op( o );
	}
};

struct ArgF : Common<ArgF> {
	using Common::Common;
	auto begin( ) {
		return daw::arg_iterator_t( static_cast<int>( n ), argv.data( ) );
	}
	auto end( ) {
		return begin( ) + static_cast<std::ptrdiff_t>( n );
	}
	template<typename N, typename It>
	void more( N &nav, It &x, Op const &o, std::ptrdiff_t d, Res &r ) {
		if( o.is( "at" ) )
			nav.refusing( r, [&] { return value( x.at( d ) ); } );
		else if( o.is( "ends" ) ) {
			r.push_back( x.at_end( ) );
			r.push_back( static_cast<bool>( x ) );
			r.push_back( static_cast<Int>( x.position( ) ) );
			r.push_back( static_cast<Int>( x.size( ) ) );
			auto e = x.end( );
			nav.rel( x, e, r );
			nav.rel( e, x, r );
		} else
			Common::more( nav, x, o, d, r );
	}
};
struct ChunkF : Common<ChunkF> {
	using Common::Common;
	using It = daw::chunk_iterator<std::vector<E>::iterator>;
	It begin( ) {
		return It( v.begin( ), static_cast<std::size_t>( z ) );
	}
	It end( ) {
		return It( v.end( ), static_cast<std::size_t>( z ) );
	}
};
struct CircF : Common<CircF> {
	using Common::Common;
	auto begin( ) {
		return daw::make_circular_iterator( v );
	}
	auto end( ) {
		return daw::make_circular_iterator( v ).end( );
	}
};
struct FCountF : Common<FCountF> {
	using Common::Common;
	static constexpr bool back = false;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::forward_counting_iterator( f.begin( ) );
	}
	auto end( ) {
		return daw::forward_counting_iterator( f.end( ) );
	}
	template<typename N>
	void dump( N &nav, Res &r ) {
		Common::dump( nav, r );
		bool const e = nav.a == nav.b;
		if( ( nav.a == nav.b.m_iter ) != e or ( nav.a.m_iter == nav.b ) != e or ( nav.a != nav.b.m_iter ) == e or ( nav.a.m_iter != nav.b ) == e )
			r.back( ) = -99;
	}
};
struct BCountF : Common<BCountF> {
	using Common::Common;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::bidirectional_counting_iterator( l.begin( ) );
	}
	auto end( ) {
		return daw::bidirectional_counting_iterator( l.end( ) );
	}
	template<typename N>
	void dump( N &nav, Res &r ) {
		Common::dump( nav, r );
		bool const e = nav.a == nav.b;
		if( ( nav.a == nav.b.m_iter ) != e or ( nav.a.m_iter == nav.b ) != e or ( nav.a != nav.b.m_iter ) == e or ( nav.a.m_iter != nav.b ) == e )
			r.back( ) = -99;
	}
};
struct FindF : Common<FindF> {
	using Common::Common;
	static constexpr bool back = false;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::find_iterator( v.begin( ), v.end( ), Odd{ } );
	}
	auto end( ) {
		return begin( ).end( );
	}
};
struct FindPF : Common<FindPF> {
	using Common::Common;
	static constexpr bool back = false;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::find_iterator( f.begin( ), f.end( ), &odd_fn );
	}
	auto end( ) {
		return begin( ).end( );
	}
};
struct FindOneF : Common<FindOneF> {
	using Common::Common;
	static constexpr bool back = false;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	static constexpr bool no_arrow = true;
	using It = daw::find_one_iterator<std::vector<E>::iterator, std::vector<E>::iterator, Odd, High>;
	It begin( ) {
		return It( v.begin( ), v.end( ), Odd{ }, High{ } );
	}
	It end( ) {
		return begin( ).end( );
	}
};
struct IdxF : Common<IdxF> {
	using Common::Common;
	auto begin( ) {
		return daw::ibegin( v );
	}
	auto end( ) {
		return daw::iend( v );
	}
};
struct CIdxF : Common<CIdxF> {
	using Common::Common;
	auto begin( ) {
		return daw::cibegin( v );
	}
	auto end( ) {
		return daw::ciend( v );
	}
};
struct IntF : Common<IntF> {
	using Common::Common;
	static constexpr bool back = false;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::integer_range<short>( 10, static_cast<short>( 10 + n ) ).begin( );
	}
	auto end( ) {
		return daw::integer_range<short>( 10, static_cast<short>( 10 + n ) ).end( );
	}
};
template<typename T>
struct IotaF : Common<IotaF<T>> {
	using Common<IotaF<T>>::Common;
	using diff = typename daw::iota_iterator<T>::difference_type;
	auto range( ) {
		// the last value may lie past the last step
		Int const last = 20 + static_cast<Int>( this->n ) * this->z - ( this->n > 0 and this->z > 1 ? this->z - 1 : 0 );
		return daw::iota_range( T{ 20 }, static_cast<T>( last ), static_cast<diff>( this->z ) );
	}
	auto begin( ) {
		if( this->z == 1 )
			return daw::iota_range( T{ 20 }, static_cast<T>( 20 + this->n ) ).begin( );
		return range( ).begin( );
	}
	auto end( ) {
		if( this->z == 1 )
			return daw::iota_range( T{ 20 }, static_cast<T>( 20 + this->n ) ).end( );
		return range( ).end( );
	}
};
struct PtrF : Common<PtrF> {
	E buf[8]{ };
	explicit PtrF( Cfg const &c )
	  : Common( c ) {
		for( std::size_t i = 0; i < n; ++i )
			buf[i] = v[i];
	}
	using It = daw::pointer_iterator<E>;
	It begin( ) {
		return It( buf );
	}
	It end( ) {
		return It( buf + n );
	}
	template<typename N>
	void dump( N &nav, Res &r ) {
		Common::dump( nav, r );
		daw::pointer_iterator<E const> c = nav.a;
		daw::pointer_iterator<E const> d( nav.b );
		if( c - nav.b != nav.a - nav.b or ( c == d ) != ( nav.a == nav.b ) )
			r.back( ) = -99;
		c = nav.b;
		if( c != d or c.get( ) != nav.b.get( ) )
			r.back( ) = -98;
	}
};
struct RandF : Common<RandF> {
	using Common::Common;
	auto begin( ) {
		return daw::make_random_iterator( v.data( ) );
	}
	auto end( ) {
		return daw::make_random_iterator( v.data( ) + n );
	}
};
struct RepF : Common<RepF> {
	using Common::Common;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::repeat_n_char_iterator( n, 'A' );
	}
	auto end( ) {
		auto r = begin( );
		for( std::size_t i = 0; i < n; ++i )
			++r;
		if( not( r == daw::repeat_n_char_end( ) ) or r != daw::repeat_n_char_end( ) )
			vt::errs++;
		return r;
	}
};
struct RevF : Common<RevF> {
	using Common::Common;
	auto begin( ) {
		return daw::make_reverse_iterator( v.begin( ) + static_cast<std::ptrdiff_t>( n ) );
	}
	auto end( ) {
		return daw::make_reverse_iterator( v.begin( ) );
	}
};
struct RevLF : Common<RevLF> {
	using Common::Common;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::make_reverse_iterator( l.end( ) );
	}
	auto end( ) {
		return daw::make_reverse_iterator( l.begin( ) );
	}
};
struct ZipF : Common<ZipF> {
	using Common::Common;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::zip_iterator( v.begin( ), second.begin( ) );
	}
	auto end( ) {
		return daw::zip_iterator( v.end( ), second.end( ) );
	}
};
struct WrapF : Common<WrapF> {
	using Common::Common;
	using It = daw::wrap_iter<std::vector<E>::iterator>;
	It begin( ) {
		return It( v.begin( ) );
	}
	It end( ) {
		return It( v.end( ) );
	}
};
struct WrapPF : Common<WrapPF> {
	using Common::Common;
	struct Tag {};
	using It = daw::wrap_iter<E const *, Tag>;
	using M = daw::wrap_iter<E *, Tag>;
	It begin( ) {
		return M( v.data( ) );
	}
	It end( ) {
		return M( v.data( ) + n );
	}
};
struct ChkF : Common<ChkF> {
	using Common::Common;
	static constexpr bool jumps = false;
	static constexpr bool ordered = false;
	auto begin( ) {
		return daw::make_checked_iterator_proxy( v.begin( ), v.end( ), z % 2 == 1, z / 2 % 2 == 1, z / 4 % 2 == 1 );
	}
	auto end( ) {
		auto r = begin( );
		for( std::size_t i = 0; i < n; ++i )
			++r;
		if( not( r == v.end( ) ) or r != v.end( ) )
			vt::errs++;
		return r;
	}
};

// Type-erased iterators hold one of two types
struct Input final : Base {
	Source s;
	using It = daw::InputIterator<E>;
	It a;
	It b;
	Int t[2] = { 0, 0 };

	explicit Input( Cfg const &c )
	  : s( c )
	  , a( make( 0, 0 ) )
	  , b( make( 0, 0 ) ) {}

	It make( Int t_, std::size_t p ) {
		E const *const q = s.v.data( ) + p;
		if( t_ == 0 )
			return It( Owning<0>( q ) );
		return It( Owning<1>( q ) );
	}
	Int at( It const &x, Int t_ ) {
		if( x == make( t_, s.n ) )
			return -1;
		return ( *x ).v;
	}
	void op( Op const &o, Res &r ) override {
		std::size_t const w = o.a.empty( ) ? 0 : o.u( 0 ) - 1;
		It &x = w == 1 ? b : a;
		It &y = w == 1 ? a : b;
		if( o.is( "begin" ) or o.is( "end" ) ) {
			auto const tmp = make( o.i( 1 ), o.is( "end" ) ? s.n : 0 );
			x = tmp;
			t[w] = o.i( 1 );
		} else if( o.is( "move" ) ) {
			x = make( o.i( 1 ), 0 );
			t[w] = o.i( 1 );
		} else if( o.is( "copy" ) ) {
			x = y;
			t[w] = t[1 - w];
			auto &self = x;
			x = self;
		} else if( o.is( "pre++" ) ) {
			auto &ref = ++x;
			r.push_back( &ref == &x ? at( x, t[w] ) : -99 );
		} else if( o.is( "post++" ) ) {
			auto const old = x++;
			r.push_back( at( old, t[w] ) );
		} else if( o.is( "->" ) )
			r.push_back( x->v );
		else if( o.is( "rel" ) ) {
			r.push_back( a == b );
			r.push_back( a != b );
		} else
			vt::bad_op( o );
		r.push_back( at( a, t[0] ) );
		r.push_back( at( b, t[1] ) );
		bool const same = a.are_same_base_iterator_type( b );
		if( same != ( t[0] == t[1] ) )
			r.push_back( -99 );
		else
			r.push_back( same ? Int{ a == b } : Int{ -2 } );
		daw::InputRange<E> range( make( 0, 0 ), make( 0, s.n ) );
		std::size_t count = 0;
		for( auto const &e : range )
			count += static_cast<std::size_t>( e.v > 0 );
		if( count != s.n )
			r.back( ) = -98;
	}
};

struct World {
	static inline std::string variant;
	std::unique_ptr<Base> p;

	explicit World( Cfg const &c ) {
		auto const k = c.s( "k" );
		auto make = [&]<typename F>( std::type_identity<F> ) { p = std::make_unique<Nav<F>>( c ); };
		if( k == "arg" )
			make( std::type_identity<ArgF>{ } );
		else if( k == "chunk" )
			make( std::type_identity<ChunkF>{ } );
		else if( k == "circ" )
			make( std::type_identity<CircF>{ } );
		else if( k == "fcount" )
			make( std::type_identity<FCountF>{ } );
		else if( k == "bcount" )
			make( std::type_identity<BCountF>{ } );
		else if( k == "find" )
			make( std::type_identity<FindF>{ } );
		else if( k == "findp" )
			make( std::type_identity<FindPF>{ } );
		else if( k == "fone" )
			make( std::type_identity<FindOneF>{ } );
		else if( k == "idx" )
			make( std::type_identity<IdxF>{ } );
		else if( k == "cidx" )
			make( std::type_identity<CIdxF>{ } );
		else if( k == "intr" )
			make( std::type_identity<IntF>{ } );
		else if( k == "iota" )
			make( std::type_identity<IotaF<int>>{ } );
		else if( k == "iotau" )
			make( std::type_identity<IotaF<unsigned>>{ } );
		else if( k == "ptr" )
			make( std::type_identity<PtrF>{ } );
		else if( k == "rand" )
			make( std::type_identity<RandF>{ } );
		else if( k == "rep" )
			make( std::type_identity<RepF>{ } );
		else if( k == "rev" )
			make( std::type_identity<RevF>{ } );
		else if( k == "revl" )
			make( std::type_identity<RevLF>{ } );
		else if( k == "zip" )
			make( std::type_identity<ZipF>{ } );
		else if( k == "wrap" )
			make( std::type_identity<WrapF>{ } );
		else if( k == "wrapp" )
			make( std::type_identity<WrapPF>{ } );
		else if( k == "chk" )
			make( std::type_identity<ChkF>{ } );
		else if( k == "input" )
			p = std::make_unique<Input>( c );
		else
			std::_Exit( 3 );
	}
	void op( Op const &o, Res &r ) {
		p->op( o, r );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	World::variant = a.variant;
	return vt::run_world<World>( a.sched, a.outp );
}
