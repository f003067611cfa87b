// Conformance driver for daw::algorithm (spec/Algo.tla, range algorithms)
#include "trace.h"

#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/algorithms/daw_algorithm_partial_sum.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_do_n.h>

#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>

using vt::Int;
using vt::Op;
using vt::Res;
namespace A = daw::algorithm;

static constexpr Int V_MAX = 8;
static int Vn = 3;
static bool P( Int m, int x ) {
	return ( ( m >> x ) & 1 ) != 0;
}
static bool cmp( Int c, int x, int y ) {
	return c == 0 ? x < y : c == 1 ? x > y : x / 2 < y / 2;
}
static bool eq( Int e, int x, int y ) {
	return e == 0 ? x == y : x % 2 == y % 2;
}
static int U( int x ) {
	return 3 * x + 1;
}
static int bop( int x, int y ) {
	return ( 2 * x + y ) % 1009;
}

// exactly sized heap block, so that the sanitizer sees every access outside the range
struct PtrBox {
	using value_type = int;
	using const_iterator = int const *;
	int const *begin( ) const {
		return p;
	}
	int const *end( ) const {
		return p + n;
	}
	int *p;
	std::size_t n;
	explicit PtrBox( std::vector<int> const &v )
	  : p( static_cast<int *>( std::malloc( v.size( ) * sizeof( int ) + ( v.empty( ) ? 1 : 0 ) ) ) )
	  , n( v.size( ) ) {
		for( std::size_t i = 0; i < n; ++i )
			p[i] = v[i];
	}
	PtrBox( PtrBox const & ) = delete;
	~PtrBox( ) {
		std::free( p );
	}
	int *begin( ) {
		return p;
	}
	int *end( ) {
		return p + n;
	}
	using iterator = int *;
};
template<typename C>
struct Make {
	static C mk( std::vector<int> const &v ) {
		return C( v.begin( ), v.end( ) );
	}
};
template<>
struct Make<PtrBox> {
	static PtrBox mk( std::vector<int> const &v ) {
		return PtrBox( v );
	}
};
template<typename C>
struct RangeOnly { // a container without rbegin
	using iterator = typename C::iterator;
	C &c;
	auto begin( ) {
		return c.begin( );
	}
	auto end( ) {
		return c.end( );
	}
};

struct Base {
	virtual ~Base( ) = default;
	virtual void op( Op const &o, Res &r ) = 0;
};

template<typename C>
struct World : Base {
	static constexpr bool RA = std::random_access_iterator<typename C::iterator>;
	void op( Op const &o, Res &r ) override {
		std::vector<int> va, vb;
		for( auto x : o.l( 0 ) )
			va.push_back( static_cast<int>( x ) );
		for( auto x : o.l( 1 ) )
			vb.push_back( static_cast<int>( x ) );
		Int const x = o.i( 2 ), y = o.i( 3 ), z = o.i( 4 );
		int const xi = static_cast<int>( x );
		std::size_t const n = va.size( );
		C a = Make<C>::mk( va );
		C b = Make<C>::mk( vb );
		C out = Make<C>::mk( std::vector<int>( n + 2, -5 ) );
		auto const f = a.begin( );
		auto const l = a.end( );
		auto const bf = b.begin( );
		auto const bl = b.end( );
		auto const of = out.begin( );
		auto px = [x]( int v ) {
			return P( x, v );
		};
		auto py = [y]( int v ) {
			return P( y, v );
		};
		auto cx = [x]( int p, int q ) {
			return cmp( x, p, q );
		};
		auto cy = [y]( int p, int q ) {
			return cmp( y, p, q );
		};
		auto ex = [x]( int p, int q ) {
			return eq( x, p, q );
		};
		auto pos = [&]( auto it ) {
			r.push_back( static_cast<Int>( std::distance( f, it ) ) );
		};
		auto put = [&]( auto v ) {
			r.push_back( static_cast<Int>( v ) );
		};
		auto buf = [&]( auto it ) {
			r.push_back( static_cast<Int>( std::distance( of, it ) ) );
			for( int v : out )
				r.push_back( v );
		};
		auto seq = [&]( auto b_, auto e_ ) {
			for( ; b_ != e_; ++b_ )
				r.push_back( *b_ );
		};
		auto optidx = [&]( std::optional<size_t> i ) {
			r.push_back( i ? static_cast<Int>( *i ) : -1 );
		};
		bool mutates = false;
		auto const &k = o.k;
		auto is = [&]( char const *s ) {
			return k == s;
		};
		if( is( "acc" ) )
			put( A::accumulate( f, l, 5 ) );
		else if( is( "acc_op" ) )
			put( A::accumulate( f, l, 3, bop ) );
		else if( is( "reduce" ) )
			put( A::reduce( f, l, 3, bop ) );
		else if( is( "psum" ) )
			buf( A::partial_sum( f, l, of ) );
		else if( is( "psum_op" ) )
			buf( A::partial_sum( f, l, of, bop ) );
		else if( is( "copy" ) )
			buf( A::copy( f, l, of ) );
		else if( is( "move" ) )
			buf( A::move( f, l, of ) );
		else if( is( "moveit" ) )
			buf( A::copy( std::make_move_iterator( f ), std::make_move_iterator( l ), of ) );
		else if( is( "ccopy" ) )
			buf( A::convert_copy<short>( f, l, of ) );
		else if( is( "fill_it" ) )
			seq( f, l );
		else if( is( "rev" ) ) {
			mutates = true;
			A::reverse( f, l );
			seq( f, l );
		} else if( is( "rev_c" ) ) {
			RangeOnly<C> ro{ a };
			Res r2;
			for( int v : A::reverse( ro ) )
				r.push_back( v );
			if constexpr( not std::is_same_v<C, PtrBox> ) {
				for( int v : A::reverse( a ) )
					r2.push_back( v );
				if( r2 != r )
					r.push_back( -999 );
			}
		} else if( is( "transform" ) )
			buf( A::transform( f, l, of, U ) );
		else if( is( "find_if" ) )
			pos( A::find_if( f, l, px ) );
		else if( is( "ffo" ) )
			pos( A::find_first_of( f, l, px ) );
		else if( is( "find_if_not" ) )
			pos( A::find_if_not( f, l, px ) );
		else if( is( "flo" ) )
			pos( A::find_last_of( f, l, px ) );
		else if( is( "ffr" ) ) {
			auto p = A::find_first_range_of( f, l, px );
			pos( p.first );
			pos( p.second );
		} else if( is( "find_transform" ) ) {
			Int calls = 0;
			auto p = A::find_transform(
			  f, l,
			  [&]( int v ) {
				  ++calls;
				  return ( v + 1 ) % static_cast<int>( y );
			  },
			  px );
			pos( p.iterator );
			put( static_cast<bool>( p ) );
			put( p.value ? *p.value : -1 );
			put( calls );
		} else if( is( "all_of" ) )
			put( A::all_of( f, l, px ) );
		else if( is( "any_of" ) )
			put( A::any_of( f, l, px ) );
		else if( is( "none_of" ) )
			put( A::none_of( f, l, px ) );
		else if( is( "count_if" ) )
			put( A::count_if( f, l, px ) );
		else if( is( "fi_if" ) )
			optidx( A::find_index_if( f, l, px ) );
		else if( is( "fio_if" ) )
			put( A::find_index_of_if( f, l, px ) );
		else if( is( "contains_if" ) )
			put( A::contains_if( f, l, px ) );
		else if( is( "for_each_if" ) )
			A::for_each_if( f, l, px, [&]( int v ) {
				r.push_back( v );
			} );
		else if( is( "copy_if" ) )
			buf( A::copy_if( f, l, of, px ) );
		else if( is( "remove_if" ) ) {
			mutates = true;
			auto e = A::remove_if( f, l, px );
			pos( e );
			seq( f, e );
		} else if( is( "consume_if" ) ) {
			mutates = true;
			Res seen;
			auto e = A::consume_if( f, l, px, [&]( int v ) {
				seen.push_back( v );
			} );
			pos( e );
			seq( f, e );
			r.insert( r.end( ), seen.begin( ), seen.end( ) );
		} else if( is( "transform_if" ) )
			buf( A::transform_if( f, l, of, px, U ) );
		else if( is( "transform_it" ) )
			buf( A::transform_it( f, l, of, [&]( int v, auto it ) {
				if( px( v ) ) {
					*it = U( v );
					++it;
				}
				return it;
			} ) );
		else if( is( "find" ) )
			pos( A::find( f, l, xi ) );
		else if( is( "fio" ) )
			put( A::find_index_of( f, l, xi ) );
		else if( is( "find_index" ) )
			optidx( A::find_index( f, l, xi ) );
		else if( is( "contains" ) )
			put( A::contains( f, l, xi ) );
		else if( is( "remove" ) ) {
			mutates = true;
			auto e = A::remove( f, l, xi );
			pos( e );
			seq( f, e );
		} else if( is( "split" ) ) {
			auto v = A::split( f, l, xi );
			put( v.size( ) );
			for( auto const &p : v ) {
				put( p.size( ) );
				seq( p.begin( ), p.end( ) );
			}
		} else if( is( "fill" ) ) {
			mutates = true;
			A::fill( f, l, xi );
			seq( f, l );
		} else if( is( "iota" ) ) {
			mutates = true;
			A::iota( f, l, xi );
			seq( f, l );
		} else if( is( "iota_s" ) ) {
			mutates = true;
			A::iota( f, l, xi, []( int &d, int v ) {
				d = v;
			} );
			seq( f, l );
		} else if( is( "issu" ) )
			pos( A::is_sorted_until( f, l, cx ) );
		else if( is( "iss" ) )
			put( A::is_sorted( f, l, cx ) );
		else if( is( "iss_s" ) )
			put( x == 0 ? A::is_sorted( f, l ) : A::is_sorted( f, l, cx ) );
		else if( is( "find_unsorted" ) )
			pos( A::find_unsorted( f, l, cx ) );
		else if( is( "maxe" ) )
			pos( A::max_element( f, l, cx ) );
		else if( is( "minmaxe" ) ) {
			auto p = A::minmax_element( f, l, cx );
			pos( p.min_element );
			pos( p.max_element );
		} else if( is( "adj" ) )
			pos( A::adjacent_find( f, l, ex ) );
		else if( is( "all_equal" ) )
			put( A::all_equal<>{ }( f, l ) or x == 1 ? ( x == 0 ? true : A::all_equal<decltype( ex )>{ }( f, l, ex ) ) : false );
		else if( is( "all_equal0" ) )
			put( A::all_equal<>{ }( f, l ) );
		else if( is( "lb" ) )
			pos( A::lower_bound( f, l, xi, cy ) );
		else if( is( "ub" ) )
			pos( A::upper_bound( f, l, xi, cy ) );
		else if( is( "bs" ) ) {
			if constexpr( RA )
				pos( A::binary_search( f, l, xi, cy ) );
			else
				pos( std::find_if( f, l, [&]( int v ) {
					return not cmp( y, v, xi ) and not cmp( y, xi, v );
				} ) );
		} else if( is( "lex" ) )
			put( x == 0 ? A::lexicographical_compare( f, l, bf, bl ) : A::lexicographical_compare( f, l, bf, bl, cx ) );
		else if( is( "cmp_range" ) )
			put( x == 0 ? A::compare_range( f, l, bf, bl ) : A::compare_range( f, l, bf, bl, cx ) );
		else if( is( "set_int" ) )
			buf( A::set_intersection( f, l, bf, bl, of, cx ) );
		else if( is( "eq4" ) )
			put( x == 0 ? A::equal( f, l, bf, bl ) : A::equal( f, l, bf, bl, ex ) );
		else if( is( "lexeq" ) )
			put( A::equal( f, l, bf, bl, ex ) );
		else if( is( "ne4" ) )
			put( x == 0 ? A::not_equal( f, l, bf, bl ) : A::not_equal( f, l, bf, bl, [&]( int p, int q ) {
				return not ex( p, q );
			} ) );
		else if( is( "eq3" ) )
			put( A::equal( f, l, bf ) );
		else if( is( "ne3" ) )
			put( A::not_equal( f, l, bf ) );
		else if( is( "search" ) )
			pos( x == 0 ? A::search( f, l, bf, bl ) : A::search( f, l, bf, bl, ex ) );
		else if( is( "ffo2" ) )
			pos( A::find_first_of( f, l, bf, bl ) );
		else if( is( "map2" ) )
			buf( A::map( f, l, bf, of, bop ) );
		else if( is( "cpm" ) )
			buf( A::cartesian_product_map(
			  []( int p, int q, int s ) {
				  return bop( bop( p, q ), s );
			  },
			  f, l, of, bf, f ) );
		else if( is( "cp" ) )
			A::cartesian_product(
			  [&]( int p, int q ) {
				  r.push_back( p );
				  r.push_back( q );
			  },
			  f, l, bf );
		else if( is( "map_reduce" ) )
			put( A::map_reduce( f, l, bf, 1, bop, []( int p, int q ) {
				return p * 3 + q;
			} ) );
		else if( is( "find_some" ) ) {
			auto p = A::find_some( f, l, px, py );
			pos( p.position );
			put( p.results[0] );
			put( p.results[1] );
		} else if( is( "find_one" ) ) {
			auto p = A::find_one_of( f, l, px, py );
			pos( p.position );
			put( p.index );
		} else if( is( "sat1" ) )
			put( A::satisfies_one( f, l, px, py ) );
		else if( is( "satall" ) )
			put( A::satisfies_all( f, l, px, py ) );
		else if( is( "copy_n" ) or is( "move_n" ) or is( "transform_n" ) or is( "transform_ni" ) ) {
			auto go = [&]( auto p ) {
				pos( p.input );
				buf( p.output );
			};
			auto const cnt = static_cast<std::size_t>( x );
			if( is( "copy_n" ) )
				go( A::copy_n( f, of, cnt ) );
			else if( is( "move_n" ) )
				go( A::move_n( f, of, cnt ) );
			else if( is( "transform_n" ) )
				go( A::transform_n( f, of, cnt, U ) );
			else
				go( A::transform_n( f, of, cnt, []( int v, std::size_t i ) {
					return 10 * v + static_cast<int>( i );
				} ) );
		} else if( is( "ccopy_n" ) ) {
			put( x );
			if constexpr( RA )
				buf( A::convert_copy_n<short>( f, of, static_cast<std::size_t>( x ) ) );
			else
				buf( A::copy_n( f, of, static_cast<std::size_t>( x ) ).output );
		} else if( is( "fill_n" ) ) {
			mutates = true;
			pos( A::fill_n( f, static_cast<std::size_t>( x ), 77 ) );
			seq( f, l );
		} else if( is( "sadv" ) ) {
			auto it = std::next( f, x );
			daw::safe_advance( a, it, y );
			pos( it );
		} else if( is( "snext" ) )
			pos( daw::safe_next( std::next( f, x ), l, static_cast<std::size_t>( y ) ) );
		else if( is( "snext1" ) )
			pos( daw::safe_next( std::next( f, x ), l ) );
		else if( is( "sprev" ) )
			pos( daw::safe_prev( std::next( f, x ), f, y ) );
		else if( is( "sprev1" ) )
			pos( daw::safe_prev( std::next( f, x ), f ) );
		else if( is( "begin_at" ) ) {
			if constexpr( std::is_same_v<C, PtrBox> ) {
				r.push_back( daw::safe_next( f, l, x ) - f );
				r.push_back( daw::safe_next( f, l, x ) - f );
			} else {
				pos( daw::begin_at( a, static_cast<std::size_t>( x ) ) );
				C const &ca = a;
				r.push_back( std::distance( ca.begin( ), daw::begin_at( ca, static_cast<std::size_t>( x ) ) ) );
			}
		} else if( is( "advance_many" ) ) {
			auto i1 = std::next( f, x );
			auto i2 = i1;
			std::vector<char> other( n + 1 );
			auto i3 = other.begin( ) + x;
			daw::advance_many( y, i1, i3, i2 );
			pos( i1 );
			pos( i2 );
			put( i3 - other.begin( ) );
		} else if( is( "gather" ) ) {
			mutates = true;
			auto p = A::gather( f, l, std::next( f, x ), py );
			pos( p.first );
			pos( p.second );
			seq( f, l );
		} else if( is( "prange" ) ) {
			auto go = [&]( auto v ) {
				put( v.size( ) );
				for( auto &p : v ) {
					put( std::distance( p.begin( ), p.end( ) ) );
					seq( p.begin( ), p.end( ) );
				}
			};
			if( y == 1 )
				go( A::partition_range( f, l, static_cast<std::size_t>( x ) ) );
			else
				go( A::partition_range<2>( daw::view( f, l ), static_cast<std::size_t>( x ) ) );
		} else if( is( "are_equal" ) ) {
			if( x == 1 )
				put( A::are_equal( va[0] ) );
			else if( x == 2 )
				put( A::are_equal( va[0], va[1] ) );
			else if( x == 3 )
				put( A::are_equal( va[0], va[1], va[2] ) );
			else
				put( A::are_equal( va[0], va[1], va[2], vb[0] ) );
		} else if( is( "max_item" ) ) {
			put( x == 1 ? A::max_item( va[0] ) : x == 2 ? A::max_item( va[0], va[1] ) : A::max_item( va[0], va[1], va[2] ) );
		} else if( is( "min_item" ) ) {
			put( x == 1 ? A::min_item( va[0] ) : x == 2 ? A::min_item( va[0], va[1] ) : A::min_item( va[0], va[1], va[2] ) );
		} else if( is( "minmaxi" ) ) {
			auto p = A::minmax_item( x, y );
			put( p.first );
			put( p.second );
			auto q = A::minmax_item( x, y, []( Int s, Int t ) {
				return s / 2 < t / 2;
			} );
			put( q.first );
			put( q.second );
		} else if( is( "clamp" ) ) {
			Int v = x;
			put( A::clamp( Int( v ), Int( y ) ) );
		} else if( is( "inr" ) ) {
			try {
				auto p = A::in_range( Int( x ), Int( y ) );
				put( p( z ) );
			} catch( std::out_of_range const & ) {
				put( -1 );
			}
		} else if( is( "rel" ) ) {
			put( A::equal_to( Int( y ) )( x ) );
			put( A::less_than( Int( y ) )( x ) );
			put( A::greater_than( Int( y ) )( x ) );
			put( A::less_than_or_equal_to( Int( y ) )( x ) );
			put( A::greater_than_or_equal_to( Int( y ) )( x ) );
		} else if( is( "sat1v" ) )
			put( A::satisfies_one( static_cast<int>( z ), px, py ) );
		else if( is( "satallv" ) )
			put( A::satisfies_all( static_cast<int>( z ), px, py ) );
		else if( is( "tfun" ) ) {
			std::tuple<int, short, Int> t{ 10, short( 11 ), 12 };
			A::tuple_functor<3>::run( static_cast<std::size_t>( x ), t, [&]( auto v ) {
				r.push_back( static_cast<Int>( v ) );
			} );
		} else if( is( "do_n" ) ) {
			Int c = 0;
			if( y == 0 )
				A::do_n( static_cast<std::size_t>( x ), [&] {
					++c;
				} );
			else
				A::do_n<4>( [&] {
					return ++c;
				} );
			put( c );
		} else if( is( "do_n_arg" ) ) {
			auto rec = [&]( std::size_t i ) {
				r.push_back( static_cast<Int>( i ) );
			};
			if( y == 0 )
				A::do_n_arg( static_cast<std::size_t>( x ), rec );
			else {
				A::do_n_arg<4>( rec );
				A::do_n_arg<6, 2>( rec );
			}
		} else if( is( "ext_all" ) ) {
			std::set<int> s( va.begin( ), va.end( ) ), t( vb.begin( ), vb.end( ) );
			A::extract_all( s, t );
			put( s.size( ) );
			seq( t.begin( ), t.end( ) );
		} else if( is( "ext_match" ) ) {
			std::set<int> s( va.begin( ), va.end( ) ), t( vb.begin( ), vb.end( ) );
			A::extract_matching( s, t, px );
			put( s.size( ) );
			seq( s.begin( ), s.end( ) );
			seq( t.begin( ), t.end( ) );
		} else if( is( "ext_mm" ) ) {
			std::multiset<int> s( va.begin( ), va.end( ) ), t( vb.begin( ), vb.end( ) );
			A::extract_matching( s, t, px );
			put( s.size( ) );
			seq( s.begin( ), s.end( ) );
			seq( t.begin( ), t.end( ) );
		} else if( is( "ext_to" ) ) {
			std::set<int> s( va.begin( ), va.end( ) ), t( vb.begin( ), vb.end( ) );
			A::extract_to( s, t, xi );
			put( s.size( ) );
			seq( s.begin( ), s.end( ) );
			seq( t.begin( ), t.end( ) );
		} else if( is( "try_get" ) ) {
			std::map<int, int> m;
			for( int v : va )
				m[v] = v * 10;
			auto go = [&]( auto &mm ) {
				auto p = daw::try_get( mm, xi );
				put( p.has_value( ) );
				if( p ) {
					put( p->first );
					put( p->second );
				}
			};
			go( m );
			go( std::as_const( m ) );
		} else
			vt::bad_op( o );
		if( not mutates and not std::equal( a.begin( ), a.end( ), va.begin( ), va.end( ) ) )
			++vt::errs;
		if( not std::equal( b.begin( ), b.end( ), vb.begin( ), vb.end( ) ) )
			++vt::errs;
	}
};

struct Any {
	Base *w = nullptr;
	static inline std::string variant;
	Any( vt::Cfg const &c ) {
		Vn = static_cast<int>( c.i( "v", 3 ) );
#if GRP == 0
		if( variant == "ptr" )
			w = new World<PtrBox>;
		else
#endif
#if GRP == 1
		if( variant == "vector" )
			w = new World<std::vector<int>>;
		else
#endif
#if GRP == 2
		if( variant == "deque" )
			w = new World<std::deque<int>>;
		else
#endif
#if GRP == 3
		if( variant == "list" )
			w = new World<std::list<int>>;
		else
#endif
			vt::bad_variant( variant );
	}
	~Any( ) {
		delete w;
	}
	void op( Op const &o, Res &r ) {
		w->op( o, r );
	}
};
int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
	Any::variant = a.variant;
	return vt::run_world<Any>( a.sched, a.outp );
}
