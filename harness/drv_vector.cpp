// Conformance driver for daw::vector (spec/Vector.tla)
#include "trace.h"

#include <daw/vector.h>

#include <memory>
#include <string>

using vt::Int;

template<typename T>
struct Conv {
	static T mk( Int x ) {
		return T( x );
	}
	static Int val( T const &x ) {
		return static_cast<Int>( x );
	}
};
template<>
struct Conv<std::string> {
	static std::string mk( Int x ) {
		return x == 0 ? std::string( ) : std::string( static_cast<std::size_t>( 20 + x ), 'x' );
	}
	static Int val( std::string const &s ) {
		return s.empty( ) ? 0 : static_cast<Int>( s.size( ) ) - 20;
	}
};

template<typename T>
struct InIt { // single pass
	using iterator_category = std::input_iterator_tag;
	using value_type = T;
	using difference_type = std::ptrdiff_t;
	using pointer = T const *;
	using reference = T const &;
	T const *p = nullptr;
	reference operator*( ) const {
		return *p;
	}
	pointer operator->( ) const {
		return p;
	}
	InIt &operator++( ) {
		++p;
		return *this;
	}
	InIt operator++( int ) {
		auto t = *this;
		++p;
		return t;
	}
	friend bool operator==( InIt const &, InIt const & ) = default;
};

// stateful allocator: blocks must go back to the arena they came from
template<typename T, bool Prop>
struct Arena {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<Prop>;
	using propagate_on_container_move_assignment = std::bool_constant<Prop>;
	using propagate_on_container_swap = std::bool_constant<Prop>;
	using is_always_equal = std::false_type;
	int id = 0;
	Arena( ) = default;
	explicit Arena( int i )
	  : id( i ) {}
	template<typename U>
	Arena( Arena<U, Prop> const &o )
	  : id( o.id ) {}
	template<typename U>
	struct rebind {
		using other = Arena<U, Prop>;
	};
	struct Hdr {
		long long id;
		long long n;
	};
	T *allocate( std::size_t n ) {
		auto *h = static_cast<Hdr *>( std::malloc( sizeof( Hdr ) + n * sizeof( T ) ) );
		h->id = id;
		h->n = static_cast<long long>( n );
		return reinterpret_cast<T *>( h + 1 );
	}
	void deallocate( T *p, std::size_t n ) {
		auto *h = reinterpret_cast<Hdr *>( p ) - 1;
		if( h->id != id or h->n != static_cast<long long>( n ) )
			++vt::errs;
		std::free( h );
	}
	friend bool operator==( Arena const &a, Arena const &b ) {
		return a.id == b.id;
	}
};

template<typename T, typename A>
A mk_alloc( int i ) {
	if constexpr( std::is_same_v<A, std::allocator<T>> )
		return A( );
	else
		return A( i );
}

template<typename T, typename A = std::allocator<T>, bool Copy = true, bool NoDefault = false>
struct World {
	using V = daw::vector<T, A>;
	using C = Conv<T>;
	std::vector<std::unique_ptr<V>> vs;

	static V *fresh( int i ) {
		if constexpr( std::is_same_v<A, std::allocator<T>> )
			return new V( );
		else
			return new V( mk_alloc<T, A>( i ) );
	}
	World( vt::Cfg const &c ) {
		for( int i = 0; i < c.i( "nv", 2 ); ++i )
			vs.emplace_back( fresh( i ) );
	}
	static std::vector<T> lst( std::vector<Int> const &q ) {
		std::vector<T> r;
		r.reserve( q.size( ) );
		for( auto x : q )
			r.emplace_back( C::mk( x ) );
		return r;
	}
	template<typename F>
	static void with_il( std::vector<Int> const &q, F f ) {
		if constexpr( Copy ) {
			switch( q.size( ) ) {
			case 0:
				return f( std::initializer_list<T>{ } );
			case 1:
				return f( std::initializer_list<T>{ C::mk( q[0] ) } );
			case 2:
				return f( std::initializer_list<T>{ C::mk( q[0] ), C::mk( q[1] ) } );
			case 3:
				return f( std::initializer_list<T>{ C::mk( q[0] ), C::mk( q[1] ), C::mk( q[2] ) } );
			case 4:
				return f( std::initializer_list<T>{ C::mk( q[0] ), C::mk( q[1] ), C::mk( q[2] ), C::mk( q[3] ) } );
			case 5:
				return f( std::initializer_list<T>{ C::mk( q[0] ), C::mk( q[1] ), C::mk( q[2] ), C::mk( q[3] ), C::mk( q[4] ) } );
			case 6:
				return f(
				  std::initializer_list<T>{ C::mk( q[0] ), C::mk( q[1] ), C::mk( q[2] ), C::mk( q[3] ), C::mk( q[4] ), C::mk( q[5] ) } );
			default:
				std::fprintf( stderr, "initializer list too long\n" );
				std::_Exit( 3 );
			}
		}
	}
	void dump( V const &v, vt::Res &r ) {
		for( auto const *p = v.data( ), *e = p + v.size( ); p != e; ++p )
			r.push_back( C::val( *p ) );
	}

	struct Replica {};
	World( World const &o, Replica ) {
		for( std::size_t i = 0; i < o.vs.size( ); ++i ) {
			vs.emplace_back( fresh( static_cast<int>( i ) ) );
			vs[i]->reserve( o.vs[i]->capacity( ) );
			for( auto const &x : *o.vs[i] )
				vs[i]->push_back( C::mk( C::val( x ) ) );
		}
	}
	void probe( vt::Op const &o, vt::Res &r ) {
		vt::Op in = o;
		in.k = o.s( 1 );
		in.a.assign( o.a.begin( ) + 2, o.a.end( ) );
		Int const live0 = vt::live, errs0 = vt::errs;
		bool thrown = false;
		{
			World w( *this, Replica{ } );
			vt::Res ret;
			vt::fuse = o.i( 0 );
			try {
				w.run( in, ret );
			} catch( vt::Boom const & ) { thrown = true; }
			vt::fuse = -1;
			Int total = 0;
			for( auto const &p : w.vs )
				total += static_cast<Int>( p->size( ) );
			V &v = *w.vs[in.u( 0 ) - 1];
			r = { thrown, vt::errs - errs0, vt::live - live0 - total, static_cast<Int>( v.size( ) ) };
			dump( v, r );
			v.push_back( C::mk( 7 ) );
			r.push_back( static_cast<Int>( v.size( ) ) );
			r.push_back( C::val( v.back( ) ) );
		}
		r.push_back( vt::live - live0 );
	}

	void op( vt::Op const &o, vt::Res &r ) {
		if( o.is( "tp" ) )
			return probe( o, r );
		std::size_t const ti = o.u( 0 ) - 1;
		auto const before = reinterpret_cast<std::uintptr_t>( vs[ti]->data( ) );
		vt::Res ret;
		run( o, ret );
		V &v = *vs[ti];
		r.push_back( static_cast<Int>( v.size( ) ) );
		for( auto &p : vs )
			r.push_back( static_cast<Int>( p->capacity( ) ) );
		r.push_back( before == reinterpret_cast<std::uintptr_t>( v.data( ) ) );
		dump( v, r );
		r.insert( r.end( ), ret.begin( ), ret.end( ) );
	}

	void run( vt::Op const &o, vt::Res &ret ) {
		std::size_t const ti = o.u( 0 ) - 1;
		V &v = *vs[ti];
		auto alloc = [&] {
			return mk_alloc<T, A>( static_cast<int>( ti ) + 10 );
		};
		auto pos = [&]( std::size_t j ) {
			return v.cbegin( ) + static_cast<std::ptrdiff_t>( o.i( j ) );
		};
		auto rpos = [&]( auto it ) {
			ret.push_back( it - v.begin( ) );
		};
		if( o.is( "ctor_default" ) ) {
			vs[ti].reset( o.i( 1 ) ? new V( alloc( ) ) : new V( ) );
		} else if( o.is( "ctor_n" ) ) {
			vs[ti].reset( o.i( 2 ) ? new V( o.u( 1 ), alloc( ) ) : new V( o.u( 1 ) ) );
		} else if( o.is( "ctor_range" ) ) {
			auto q = lst( o.l( 1 ) );
			if constexpr( Copy ) {
				vs[ti].reset( o.i( 2 ) ? new V( q.data( ), q.data( ) + q.size( ), alloc( ) ) : new V( q.data( ), q.data( ) + q.size( ) ) );
			} else {
				auto b = std::make_move_iterator( q.data( ) ), e = std::make_move_iterator( q.data( ) + q.size( ) );
				vs[ti].reset( o.i( 2 ) ? new V( b, e, alloc( ) ) : new V( b, e ) );
			}
		} else if( o.is( "ctor_input" ) ) {
			auto q = o.l( 1 );
			if constexpr( Copy ) {
				auto p = lst( q );
				InIt<T> b{ p.data( ) }, e{ p.data( ) + p.size( ) };
				vs[ti].reset( o.i( 2 ) ? new V( b, e, alloc( ) ) : new V( b, e ) );
			} else {
				InIt<Int> b{ q.data( ) }, e{ q.data( ) + q.size( ) };
				vs[ti].reset( o.i( 2 ) ? new V( b, e, alloc( ) ) : new V( b, e ) );
			}
		} else if( o.is( "ctor_move" ) ) {
			V &s = *vs[o.u( 1 ) - 1];
			if( o.i( 2 ) ) {
				std::unique_ptr<V> n( new V( std::move( s ), s.get_allocator( ) ) );
				ret.push_back( static_cast<Int>( s.size( ) ) );
				vs[ti] = std::move( n );
			} else {
				std::unique_ptr<V> n( new V( std::move( s ) ) );
				ret.push_back( static_cast<Int>( s.size( ) ) );
				vs[ti] = std::move( n );
			}
		} else if( o.is( "assign_range" ) ) {
			auto q = lst( o.l( 1 ) );
			if constexpr( Copy )
				v.assign( q.data( ), q.data( ) + q.size( ) );
			else
				v.assign( std::make_move_iterator( q.data( ) ), std::make_move_iterator( q.data( ) + q.size( ) ) );
		} else if( o.is( "assign_input" ) ) {
			auto q = o.l( 1 );
			if constexpr( Copy ) {
				auto p = lst( q );
				v.assign( InIt<T>{ p.data( ) }, InIt<T>{ p.data( ) + p.size( ) } );
			} else
				v.assign( InIt<Int>{ q.data( ) }, InIt<Int>{ q.data( ) + q.size( ) } );
		} else if( o.is( "move_assign" ) ) {
			V &s = *vs[o.u( 1 ) - 1];
			v = std::move( s );
			s.clear( );
		} else if( o.is( "swap" ) ) {
			V &s = *vs[o.u( 1 ) - 1];
			if( o.i( 2 ) ) {
				using std::swap;
				swap( v, s );
			} else
				v.swap( s );
			dump( s, ret );
			if( &s == &v )
				;
		} else if( o.is( "push_m" ) ) {
			v.push_back( C::mk( o.i( 1 ) ) );
		} else if( o.is( "emplace_back" ) ) {
			auto &x = v.emplace_back( C::mk( o.i( 1 ) ) );
			ret.push_back( C::val( x ) );
			ret.push_back( &x - v.data( ) );
		} else if( o.is( "pop_back" ) ) {
			v.pop_back( );
		} else if( o.is( "pop_back_value" ) ) {
			T x = v.pop_back_value( );
			ret.push_back( C::val( x ) );
		} else if( o.is( "insert_m" ) ) {
			rpos( v.insert( pos( 1 ), C::mk( o.i( 2 ) ) ) );
		} else if( o.is( "emplace" ) ) {
			rpos( v.emplace( pos( 1 ), C::mk( o.i( 2 ) ) ) );
		} else if( o.is( "insert_range" ) ) {
			auto q = lst( o.l( 2 ) );
			if constexpr( Copy )
				rpos( v.insert( pos( 1 ), q.data( ), q.data( ) + q.size( ) ) );
			else
				rpos( v.insert( pos( 1 ), std::make_move_iterator( q.data( ) ), std::make_move_iterator( q.data( ) + q.size( ) ) ) );
		} else if( o.is( "insert_input" ) ) {
			auto q = o.l( 2 );
			if constexpr( Copy ) {
				auto p = lst( q );
				rpos( v.insert( pos( 1 ), InIt<T>{ p.data( ) }, InIt<T>{ p.data( ) + p.size( ) } ) );
			} else
				rpos( v.insert( pos( 1 ), InIt<Int>{ q.data( ) }, InIt<Int>{ q.data( ) + q.size( ) } ) );
		} else if( o.is( "erase" ) ) {
			rpos( v.erase( pos( 1 ) ) );
		} else if( o.is( "erase_range" ) ) {
			rpos( v.erase( pos( 1 ), pos( 2 ) ) );
		} else if( o.is( "resize" ) ) {
			v.resize( o.u( 1 ) );
		} else if( o.is( "reserve" ) ) {
			v.reserve( o.u( 1 ) );
		} else if( o.is( "shrink" ) ) {
			v.shrink_to_fit( );
		} else if( o.is( "clear" ) ) {
			v.clear( );
		} else if( o.is( "erase_val" ) ) {
			ret.push_back( static_cast<Int>( daw::erase( v, C::mk( o.i( 1 ) ) ) ) );
		} else if( o.is( "erase_if" ) ) {
			ret.push_back( static_cast<Int>( daw::erase_if( v, [&]( T const &x ) {
				return C::val( x ) % 2 == o.i( 1 );
			} ) ) );
		} else if( o.is( "at" ) ) {
			try {
				T const &x = o.i( 2 ) ? std::as_const( v ).at( o.u( 1 ) ) : v.at( o.u( 1 ) );
				Int y = C::val( x );
				ret = { 0, y };
			} catch( std::out_of_range const & ) { ret = { 1 }; }
		} else if( o.is( "idx" ) ) {
			ret = { C::val( v[o.u( 1 )] ), C::val( std::as_const( v )[o.u( 1 )] ) };
		} else if( o.is( "ends" ) ) {
			ret = { C::val( v.front( ) ), C::val( std::as_const( v ).front( ) ), C::val( v.back( ) ), C::val( std::as_const( v ).back( ) ) };
		} else if( o.is( "set" ) ) {
			std::size_t k = o.u( 1 );
			auto d = static_cast<std::ptrdiff_t>( k );
			T x = C::mk( o.i( 2 ) );
			switch( o.i( 3 ) ) {
			case 0:
				v[k] = std::move( x );
				break;
			case 1:
				v.at( k ) = std::move( x );
				break;
			case 2:
				*( v.begin( ) + d ) = std::move( x );
				break;
			case 3:
				v.data( )[k] = std::move( x );
				break;
			case 4:
				*( v.rend( ) - 1 - d ) = std::move( x );
				break;
			default:
				if( k == 0 )
					v.front( ) = std::move( x );
				else if( k + 1 == v.size( ) )
					v.back( ) = std::move( x );
				else
					v.begin( )[d] = std::move( x );
			}
		} else if( o.is( "cmp" ) ) {
			V const &a = v, &b = *vs[o.u( 1 ) - 1];
			ret = { a == b, a != b, a < b, a > b, a <= b, a >= b };
		} else if( o.is( "iter" ) ) {
			auto go = [&]( auto b, auto e ) {
				auto x = b + static_cast<std::ptrdiff_t>( o.i( 1 ) );
				auto y = b;
				for( Int i = 0; i < o.i( 2 ); ++i )
					( i & 1 ) ? (void)++y : (void)y++;
				ret = { y - x, x == y, x != y, x < y, x > y, x <= y, x >= y };
				ret.push_back( x != e ? C::val( *x ) : -1 );
				ret.push_back( y != e ? C::val( *( y.operator->( ) ) ) : -1 );
				auto z = y;
				ret.push_back( y != b ? C::val( *--z ) : -1 );
				ret.push_back( e - x );
			};
			if( o.i( 3 ) )
				go( v.cbegin( ), v.cend( ) );
			else
				go( v.begin( ), v.end( ) );
		} else if( o.is( "obs" ) ) {
			V const &cv = v;
			ret = { static_cast<Int>( cv.size( ) ), cv.empty( ), cv.ssize( ), cv.max_size( ) >= cv.size( ) };
			auto each = [&]( auto b, auto e ) {
				for( ; b != e; ++b )
					ret.push_back( C::val( *b ) );
			};
			switch( o.i( 1 ) ) {
			case 0:
				each( v.begin( ), v.end( ) );
				break;
			case 1:
				each( v.cbegin( ), v.cend( ) );
				break;
			case 2:
				each( v.rbegin( ), v.rend( ) );
				break;
			case 3:
				each( cv.crbegin( ), cv.crend( ) );
				break;
			case 4:
				each( cv.data( ), cv.data_end( ) );
				break;
			default:
				for( auto const &x : cv )
					ret.push_back( C::val( x ) );
			}
		} else {
			if constexpr( Copy ) {
				if( o.is( "ctor_nv" ) ) {
					T x = C::mk( o.i( 2 ) );
					vs[ti].reset( o.i( 3 ) ? new V( o.u( 1 ), x, alloc( ) ) : new V( o.u( 1 ), x ) );
					return;
				} else if( o.is( "ctor_il" ) ) {
					with_il( o.l( 1 ), [&]( auto il ) {
						vs[ti].reset( new V( il, alloc( ) ) );
					} );
					return;
				} else if( o.is( "ctor_copy" ) ) {
					V &s = *vs[o.u( 1 ) - 1];
					std::unique_ptr<V> n( o.i( 2 ) ? new V( s, alloc( ) ) : new V( s ) );
					dump( s, ret );
					vs[ti] = std::move( n );
					return;
				} else if( o.is( "assign_n" ) ) {
					T x = C::mk( o.i( 2 ) );
					v.assign( o.u( 1 ), x );
					return;
				} else if( o.is( "assign_il" ) ) {
					with_il( o.l( 1 ), [&]( auto il ) {
						v.assign( il );
					} );
					return;
				} else if( o.is( "assign_eq_il" ) ) {
					with_il( o.l( 1 ), [&]( auto il ) {
						v = il;
					} );
					return;
				} else if( o.is( "copy_assign" ) ) {
					V &s = *vs[o.u( 1 ) - 1];
					v = s;
					dump( s, ret );
					return;
				} else if( o.is( "push_c" ) ) {
					T const x = C::mk( o.i( 1 ) );
					v.push_back( x );
					return;
				} else if( o.is( "push_alias" ) ) {
					v.push_back( v[o.u( 1 )] );
					return;
				} else if( o.is( "emplace_back_alias" ) ) {
					auto &x = v.emplace_back( v[o.u( 1 )] );
					ret.push_back( C::val( x ) );
					ret.push_back( &x - v.data( ) );
					return;
				} else if( o.is( "insert_c" ) ) {
					T const x = C::mk( o.i( 2 ) );
					rpos( v.insert( pos( 1 ), x ) );
					return;
				} else if( o.is( "insert_alias" ) ) {
					rpos( v.insert( pos( 1 ), std::as_const( v )[o.u( 2 )] ) );
					return;
				} else if( o.is( "emplace_alias" ) ) {
					rpos( v.emplace( pos( 1 ), v[o.u( 2 )] ) );
					return;
				} else if( o.is( "insert_n" ) ) {
					T const x = C::mk( o.i( 3 ) );
					rpos( v.insert( pos( 1 ), o.u( 2 ), x ) );
					return;
				} else if( o.is( "insert_n_alias" ) ) {
					rpos( v.insert( pos( 1 ), o.u( 2 ), std::as_const( v )[o.u( 3 )] ) );
					return;
				} else if( o.is( "insert_il" ) ) {
					with_il( o.l( 2 ), [&]( auto il ) {
						rpos( v.insert( pos( 1 ), il ) );
					} );
					return;
				} else if( o.is( "resize_v" ) ) {
					T const x = C::mk( o.i( 2 ) );
					v.resize( o.u( 1 ), x );
					return;
				} else if( o.is( "append" ) ) {
					T const x = C::mk( o.i( 2 ) );
					v.append( o.u( 1 ), x );
					return;
				}
			}
			if constexpr( std::is_trivial_v<T> ) {
				std::size_t seen = 0;
				auto fill = [&]( T *p, std::size_t n, Int m, Int x ) {
					seen = n;
					for( Int i = 0; i < m; ++i )
						std::construct_at( p + i, C::mk( x ) );
				};
				if( o.is( "ctor_rao" ) ) {
					auto f = [&]( T *p, std::size_t n ) {
						fill( p, n, o.i( 2 ), o.i( 3 ) );
						return o.u( 2 );
					};
					vs[ti].reset( o.i( 4 ) ? new V( daw::do_resize_and_overwrite, o.u( 1 ), f, alloc( ) )
					                       : new V( daw::do_resize_and_overwrite, o.u( 1 ), f ) );
					return;
				}
				if( o.is( "rao" ) or o.is( "aao" ) ) {
					bool const aa = o.is( "aao" );
					auto f0 = [&]( T *p, std::size_t n ) {
						fill( p, n, o.i( 2 ), o.i( 3 ) );
						return o.u( 2 );
					};
					auto f1 = [&]( T *p, std::size_t n, A & ) {
						fill( p, n, o.i( 2 ), o.i( 3 ) );
						return o.u( 2 );
					};
					auto f2 = [&]( T *p, std::size_t n ) {
						fill( p, n, o.i( 2 ), o.i( 3 ) );
						return o.i( 2 ) == 0 ? Int{ -1 } : o.i( 2 );
					};
					Int x = 0;
					switch( o.i( 4 ) ) {
					case 0:
						x = static_cast<Int>( aa ? v.append_and_overwrite( o.u( 1 ), f0 ) : v.resize_and_overwrite( o.u( 1 ), f0 ) );
						break;
					case 1:
						x = static_cast<Int>( aa ? v.append_and_overwrite( o.u( 1 ), f1 ) : v.resize_and_overwrite( o.u( 1 ), f1 ) );
						break;
					default:
						x = static_cast<Int>( aa ? v.append_and_overwrite( o.u( 1 ), f2 ) : v.resize_and_overwrite( o.u( 1 ), f2 ) );
					}
					ret = { x, static_cast<Int>( seen ) };
					return;
				}
				if( o.is( "block_append" ) ) {
					auto q = lst( o.l( 1 ) );
					daw::block_append_from( v, q.data( ), q.data( ) + q.size( ), o.u( 2 ) );
					return;
				}
				if( o.is( "block_create" ) ) {
					auto q = lst( o.l( 1 ) );
					if constexpr( std::is_same_v<A, std::allocator<T>> )
						vs[ti].reset( new V( daw::block_create_from<T, A>( q.data( ), q.data( ) + q.size( ), o.u( 2 ) ) ) );
					return;
				}
			}
			vt::bad_op( o );
		}
	}
};

#define V_( N, ... )                                       \
	if( a.variant == N )                                    \
	return vt::run_world<__VA_ARGS__>( a.sched, a.outp )
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	using TC = vt::Tracked<true>;
	using TM = vt::Tracked<true, true>;
	using TO = vt::Tracked<false>;
#if GRP == 0
	V_( "int", World<int> );
	V_( "char", World<signed char> );
#elif GRP == 1
	V_( "string", World<std::string> );
	V_( "moveonly", World<TO, std::allocator<TO>, false> );
#elif GRP == 2
	V_( "tracked", World<TC> );
	V_( "trackedmt", World<TM> );
#else
	V_( "arena_p", World<TC, Arena<TC, true>> );
	V_( "arena_n", World<TC, Arena<TC, false>> );
#endif
	vt::bad_variant( a.variant );
}
