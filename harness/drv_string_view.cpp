// daw::string_view driver: one view over one text; see spec/StringView.tla for the meaning of every operation.
#include "trace.h"
#include <daw/daw_string_view.h>
#include <iomanip>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>

using vt::Int;
using vt::Op;
using vt::Res;

template<typename C>
struct World {
	using SV = daw::sv2::basic_string_view<C>;
	using Str = std::basic_string<C>;
	static constexpr bool neg = std::is_signed_v<C> and sizeof( C ) == 1;
	Int e;
	std::size_t len;
	std::unique_ptr<C[]> buf;
	C const *text;
	SV full;
	SV v;

	static C ch( Int x ) {
		return static_cast<C>( x );
	}
	static Int num( C c ) {
		return static_cast<Int>( c );
	}
	static Str str( std::vector<Int> const &l ) {
		Str r;
		for( Int x : l )
			r.push_back( ch( x ) );
		return r;
	}
	// exactly sized copy of a list, so that over-reads of arguments are seen too
	struct Exact {
		std::unique_ptr<C[]> p;
		std::size_t n;
		explicit Exact( std::vector<Int> const &l, bool z = false )
		  : p( new C[l.size( ) + ( z ? 1 : 0 )] )
		  , n( l.size( ) ) {
			for( std::size_t i = 0; i < n; ++i )
				p[i] = ch( l[i] );
			if( z )
				p[n] = C{ };
		}
		SV sv( ) const {
			return SV( p.get( ), n );
		}
	};
	explicit World( vt::Cfg const &c )
	  : e( c.i( "e" ) ) {
		auto t = c.l( "t" );
		len = t.size( );
		if( e == 0 ) {
			buf.reset( new C[len] );
			text = buf.get( );
		} else if( e == 1 ) {
			buf.reset( new C[len + 12] );
			for( std::size_t i = 0; i < len + 12; ++i )
				buf[i] = ch( "ab aab ba"[i % 9] );
			text = buf.get( ) + 6;
		} else {
			buf.reset( new C[len + 1] );
			buf[len] = C{ };
			text = buf.get( );
		}
		for( std::size_t i = 0; i < len; ++i )
			const_cast<C *>( text )[i] = ch( t[i] );
		if( e == 2 )
			full = SV( text );
		else
			full = SV( text, len );
		v = full;
	}
	static Int pos( std::size_t p ) {
		return p == SV::npos ? -1 : static_cast<Int>( p );
	}
	static std::size_t arg( Int p ) {
		return p == -1 ? SV::npos : static_cast<std::size_t>( p );
	}
	Int off( SV const &x ) const {
		return x.empty( ) ? -1 : static_cast<Int>( x.data( ) - text );
	}
	void head( Res &r, SV const *piece = nullptr ) {
		r.push_back( off( v ) );
		r.push_back( static_cast<Int>( v.size( ) ) );
		r.push_back( v.is_zero_terminated( ) == daw::sv2::ZeroTerminated::Yes );
		r.push_back( piece ? piece->is_zero_terminated( ) == daw::sv2::ZeroTerminated::Yes : 0 );
		if( piece ) {
			r.push_back( off( *piece ) );
			r.push_back( static_cast<Int>( piece->size( ) ) );
		}
	}
	static int sgn( int x ) {
		return x < 0 ? -1 : x > 0 ? 1 : 0;
	}

	struct Pred {
		Int k;
		constexpr bool operator( )( C c ) const {
			switch( k ) {
			case 0:
				return c == C( 'a' );
			case 1:
				return c == C( ' ' ) or ( c >= C( 9 ) and c <= C( 13 ) );
			case 2:
				return false;
			case 3:
				return true;
			default:
				return c == C( 'b' ) or c == C( ' ' );
			}
		}
	};
	template<typename A, typename B>
	static void rel( Res &r, A const &a, B const &b ) {
		r.push_back( a == b );
		r.push_back( a != b );
		r.push_back( a < b );
		r.push_back( a <= b );
		r.push_back( a > b );
		r.push_back( a >= b );
		auto const o = a <=> b;
		r.push_back( o < 0 ? -1 : o > 0 ? 1 : 0 );
	}
	void list( Res &r, auto const &x ) {
		for( auto c : x )
			r.push_back( num( c ) );
	}

	bool query( Op const &o, Res &r ) {
		SV const &v = this->v;
#define FAMILY( KEY, FN )                                             \
	if( o.is( KEY ) ) {                                                 \
		Exact n( o.l( 0 ), o.i( 2 ) == 1 );                               \
		if( o.i( 2 ) == 0 )                                               \
			r = { pos( v.FN( n.sv( ), arg( o.i( 1 ) ) ) ) };                \
		else if( o.i( 2 ) == 1 )                                          \
			r = { pos( v.FN( static_cast<C const *>( n.p.get( ) ), arg( o.i( 1 ) ) ) ) }; \
		else                                                              \
			r = { pos( v.FN( static_cast<C const *>( n.p.get( ) ), arg( o.i( 1 ) ), n.n ) ) }; \
		return true;                                                      \
	}
		FAMILY( "find", find )
		FAMILY( "rfind", rfind )
		FAMILY( "first_of", find_first_of )
		FAMILY( "last_of", find_last_of )
		FAMILY( "first_not_of", find_first_not_of )
		FAMILY( "last_not_of", find_last_not_of )
#undef FAMILY
#define FAMC( KEY, FN )                                                  \
	if( o.is( KEY ) ) {                                                    \
		r = { pos( v.FN( ch( o.i( 0 ) ), arg( o.i( 1 ) ) ) ) };              \
		if( ( o.i( 1 ) == 0 and ( o.k.find( "first" ) != std::string::npos or o.is( "find_c" ) ) ) or \
		    ( o.i( 1 ) == -1 and not( o.k.find( "first" ) != std::string::npos or o.is( "find_c" ) ) ) ) { \
			Int const d = pos( v.FN( ch( o.i( 0 ) ) ) );                       \
			if( d != r[0] )                                                    \
				r.push_back( d );                                                \
		}                                                                    \
		return true;                                                         \
	}
		FAMC( "find_c", find )
		FAMC( "rfind_c", rfind )
		FAMC( "first_of_c", find_first_of )
		FAMC( "last_of_c", find_last_of )
		FAMC( "first_not_of_c", find_first_not_of )
		FAMC( "last_not_of_c", find_last_not_of )
#undef FAMC
#define FAMP( KEY, FN )                                     \
	if( o.is( KEY ) ) {                                       \
		r = { pos( v.FN( Pred{ o.i( 0 ) }, arg( o.i( 1 ) ) ) ) }; \
		return true;                                            \
	}
		FAMP( "first_of_if", find_first_of_if )
		FAMP( "first_not_of_if", find_first_not_of_if )
		FAMP( "last_of_if", find_last_of_if )
		FAMP( "last_not_of_if", find_last_not_of_if )
#undef FAMP
		if( o.is( "contains" ) ) {
			Int const f = o.i( 2 );
			Exact n( o.l( 0 ), f == 1 );
			if( f == 0 )
				r = { v.contains( n.sv( ) ) };
			else if( f == 1 )
				r = { v.contains( static_cast<C const *>( n.p.get( ) ), o.u( 1 ) ) };
			else
				r = { v.contains( static_cast<C const *>( n.p.get( ) ), o.u( 1 ), n.n ) };
			return true;
		}
		if( o.is( "contains_c" ) ) {
			r = { v.contains( ch( o.i( 0 ) ), o.u( 1 ) ) };
			return true;
		}
		if( o.is( "match" ) ) {
			Exact n( o.l( 0 ) );
			r = { pos( v.find_first_match( n.sv( ), o.u( 1 ) ) ), pos( v.find_first_match( { n.sv( ) }, o.u( 1 ) ) ) };
			return true;
		}
		if( o.is( "match2" ) ) {
			Exact n( o.l( 0 ) ), m( o.l( 1 ) );
			r = { pos( v.find_first_match( { n.sv( ), m.sv( ) }, o.u( 2 ) ) ) };
			return true;
		}
		if( o.is( "search" ) or o.is( "search_last" ) ) {
			Exact n( o.l( 0 ) ), z( o.l( 0 ), true );
			bool const l = o.is( "search_last" );
			Int const a = pos( l ? v.search_last( n.sv( ), arg( o.i( 1 ) ) ) : v.search( n.sv( ), arg( o.i( 1 ) ) ) );
			C const *zp = z.p.get( );
			Int const b = pos( l ? v.search_last( zp, arg( o.i( 1 ) ) ) : v.search( zp, arg( o.i( 1 ) ) ) );
			r = { a };
			if( a != b )
				r.push_back( b );
			return true;
		}
		if( o.is( "starts" ) ) {
			Exact n( o.l( 0 ) ), z( o.l( 0 ), true );
			r = { v.starts_with( n.sv( ) ), v.starts_with( static_cast<C const *>( z.p.get( ) ) ) };
			return true;
		}
		if( o.is( "ends" ) ) {
			Exact n( o.l( 0 ) ), z( o.l( 0 ), true );
			r = { v.ends_with( n.sv( ) ), v.ends_with( static_cast<C const *>( z.p.get( ) ) ) };
			return true;
		}
		if( o.is( "starts_c" ) ) {
			r = { v.starts_with( ch( o.i( 0 ) ) ) };
			return true;
		}
		if( o.is( "ends_c" ) ) {
			r = { v.ends_with( ch( o.i( 0 ) ) ) };
			return true;
		}
		if( o.is( "cmp" ) ) {
			Exact n( o.l( 0 ) );
			r = { sgn( v.compare( n.sv( ) ) ), sgn( v.compare( str( o.l( 0 ) ) ) ), sgn( SV::compare( v, n.sv( ) ) ),
			      sgn( v.compare( n.sv( ), []( C a, C b ) { return b < a; } ) ), sgn( n.sv( ).compare( v ) ) };
			// reversed order: shorter is still smaller, so undo the sign only when the contents differ within the common part
			std::size_t const m = std::min( v.size( ), n.n );
			bool common = true;
			for( std::size_t i = 0; i < m; ++i )
				common = common and v[i] == n.p[i];
			if( common )
				r[3] = -r[3];
			return true;
		}
		if( o.is( "rel" ) ) {
			Exact n( o.l( 0 ) );
			Exact z( o.l( 0 ), true );
			Str s = str( o.l( 0 ) );
			rel( r, v, n.sv( ) );
			rel( r, v, SV( static_cast<C const *>( z.p.get( ) ) ) );
			rel( r, n.sv( ), v );
			if( ( v == s ) != ( v == n.sv( ) ) or ( s == v ) != ( v == n.sv( ) ) or ( s != v ) == ( v == n.sv( ) ) or
			    ( v == static_cast<C const *>( z.p.get( ) ) ) != ( v == n.sv( ) ) or
			    ( static_cast<C const *>( z.p.get( ) ) != v ) == ( v == n.sv( ) ) )
				r.push_back( 99 );
			return true;
		}
		if( o.is( "cmp_sub" ) ) {
			Int const f = o.i( 3 );
			Exact n( o.l( 2 ), f == 1 );
			if( f == 0 )
				r = { sgn( v.compare( o.u( 0 ), arg( o.i( 1 ) ), n.sv( ) ) ) };
			else if( f == 1 )
				r = { sgn( v.compare( o.u( 0 ), arg( o.i( 1 ) ), static_cast<C const *>( n.p.get( ) ) ) ) };
			else
				r = { sgn( v.compare( o.u( 0 ), arg( o.i( 1 ) ), static_cast<C const *>( n.p.get( ) ), n.n ) ) };
			return true;
		}
		if( o.is( "cmp_sub2" ) ) {
			Exact n( o.l( 2 ) );
			r = { sgn( v.compare( o.u( 0 ), arg( o.i( 1 ) ), n.sv( ), o.u( 3 ), arg( o.i( 4 ) ) ) ) };
			return true;
		}
		if( o.is( "at" ) ) {
			try {
				C const c = v.at( arg( o.i( 0 ) ) );
				r = { 0, num( c ) };
			} catch( std::out_of_range const & ) { r = { 1 }; }
			return true;
		}
		if( o.is( "idx" ) ) {
			r = { num( v[o.u( 0 )] ) };
			return true;
		}
		if( o.is( "ends_acc" ) ) {
			r = { num( v.front( ) ), num( v.back( ) ) };
			return true;
		}
		if( o.is( "chars" ) ) {
			r = { static_cast<Int>( v.size( ) ), static_cast<Int>( v.length( ) ), v.empty( ) };
			list( r, v );
			for( auto it = v.rbegin( ); it != v.rend( ); ++it )
				r.push_back( num( *it ) );
			for( auto it = v.cbegin( ); it != v.cend( ); ++it )
				r.push_back( num( *it ) );
			for( auto it = v.crbegin( ); it != v.crend( ); ++it )
				r.push_back( num( *it ) );
			if( v.data_end( ) - v.data( ) != static_cast<std::ptrdiff_t>( v.size( ) ) )
				r.push_back( -99 );
			return true;
		}
		if( o.is( "copy" ) ) {
			std::size_t const p = o.u( 1 );
			std::size_t const want = o.i( 0 ) == -1 ? v.size( ) - p : std::min<std::size_t>( o.u( 0 ), v.size( ) - p );
			std::unique_ptr<C[]> d( new C[want + 1] );
			d[want] = ch( 77 );
			auto const n = ( p == 0 and o.i( 0 ) == 1 ) ? v.copy( d.get( ), arg( o.i( 0 ) ) ) : v.copy( d.get( ), arg( o.i( 0 ) ), p );
			r = { static_cast<Int>( n ) };
			for( std::size_t i = 0; i <= want; ++i )
				r.push_back( num( d[i] ) );
			return true;
		}
		if( o.is( "str" ) ) {
			list( r, static_cast<Str>( v ) );
			list( r, static_cast<std::basic_string_view<C>>( v ) );
			auto p = v.get_c_str( );
			for( C const *q = p.c_str( ); *q != C{ }; ++q )
				r.push_back( num( *q ) );
			return true;
		}
		if( o.is( "hash" ) ) {
			Str cp( v.data( ) ? v.data( ) : text, v.size( ) );
			r = { std::hash<SV>{ }( v ) == std::hash<SV>{ }( SV( cp ) ) };
			return true;
		}
		if( o.is( "os" ) ) {
			if constexpr( std::is_same_v<C, char> or std::is_same_v<C, wchar_t> ) {
				std::basic_ostringstream<C> os;
				os << std::setw( static_cast<int>( o.i( 0 ) ) ) << std::setfill( ch( 42 ) );
				if( o.i( 1 ) )
					os << std::left;
				os << v;
				list( r, os.str( ) );
				r.push_back( os.width( ) );
			} else {
				// no stream for this character type: build the same text from the view
				Str s( v.begin( ), v.end( ) );
				std::size_t w = o.u( 0 );
				Str f( w > s.size( ) ? w - s.size( ) : 0, ch( 42 ) );
				list( r, o.i( 1 ) ? s + f : f + s );
				r.push_back( 0 );
			}
			return true;
		}
		return false;
	}

	void op( Op const &o, Res &r ) {
		if( query( o, r ) )
			return;
		using daw::nodiscard;
		if( o.is( "win" ) ) {
			v = full.substr( o.u( 0 ), o.u( 1 ) );
			if( o.u( 0 ) == 0 and o.u( 1 ) == len )
				v = full;
			head( r );
			return;
		}
		if( o.is( "pf" ) or o.is( "pb" ) ) {
			C c = o.is( "pf" ) ? ( o.i( 0 ) ? v.pop_front_unsafe( ) : v.pop_front( ) ) : ( o.i( 0 ) ? v.pop_back_unsafe( ) : v.pop_back( ) );
			head( r );
			r.push_back( num( c ) );
			return;
		}
		auto piece = [&]( SV p ) { head( r, &p ); };
		auto none = [&]( SV const &self ) {
			head( r );
			if( &self != &v )
				r.push_back( -99 );
		};
		std::size_t const n0 = o.a.empty( ) or o.a[0].is_list ? 0 : arg( o.i( 0 ) );
		if( o.is( "pfn" ) )
			return piece( o.i( 1 ) ? v.pop_front_unsafe( n0 ) : v.pop_front( n0 ) );
		if( o.is( "pbn" ) )
			return piece( o.i( 1 ) ? v.pop_back_unsafe( n0 ) : v.pop_back( n0 ) );
		if( o.is( "rp" ) )
			switch( o.i( 1 ) ) {
			case 0:
				return none( v.remove_prefix( n0 ) );
			case 1:
				return none( v.remove_prefix_unsafe( n0 ) );
			case 2:
				return none( v.remove_prefix( ) );
			default:
				return none( v.remove_prefix_unsafe( ) );
			}
		if( o.is( "rs" ) )
			switch( o.i( 1 ) ) {
			case 0:
				return none( v.remove_suffix( n0 ) );
			case 1:
				return none( v.remove_suffix_unsafe( n0 ) );
			case 2:
				return none( v.remove_suffix( ) );
			default:
				return none( v.remove_suffix_unsafe( ) );
			}
#define UNTIL( KEY, FN, WRAP )                                                                      \
	if( o.is( KEY ) ) {                                                                               \
		Exact d( o.l( 0 ) );                                                                            \
		return o.i( 1 ) ? WRAP( v.FN( d.sv( ), nodiscard ) ) : WRAP( v.FN( d.sv( ) ) );                 \
	}                                                                                                 \
	if( o.is( KEY "_c" ) )                                                                            \
		return o.i( 1 ) ? WRAP( v.FN( ch( o.i( 0 ) ), nodiscard ) ) : WRAP( v.FN( ch( o.i( 0 ) ) ) );   \
	if( o.is( KEY "_p" ) )                                                                            \
		return o.i( 1 ) ? WRAP( v.FN( Pred{ o.i( 0 ) }, nodiscard ) ) : WRAP( v.FN( Pred{ o.i( 0 ) } ) );
		UNTIL( "pfu", pop_front_until, piece )
		UNTIL( "tpfu", try_pop_front_until, piece )
		UNTIL( "pbu", pop_back_until, piece )
		UNTIL( "tpbu", try_pop_back_until, piece )
		UNTIL( "rpu", remove_prefix_until, none )
#undef UNTIL
		if( o.is( "pfw" ) ) {
			Exact d( o.l( 0 ) );
			return piece( v.pop_front_while( d.sv( ) ) );
		}
		if( o.is( "pfw_c" ) )
			return piece( v.pop_front_while( ch( o.i( 0 ) ) ) );
		if( o.is( "pfw_p" ) )
			return piece( v.pop_front_while( Pred{ o.i( 0 ) } ) );
		if( o.is( "rpw_c" ) )
			return none( v.remove_prefix_while( ch( o.i( 0 ) ) ) );
		if( o.is( "rpw_p" ) )
			return none( v.remove_prefix_while( Pred{ o.i( 0 ) } ) );
		if( o.is( "rsw_c" ) )
			return none( v.remove_suffix_while( ch( o.i( 0 ) ) ) );
		if( o.is( "rsw_p" ) )
			return none( v.remove_suffix_while( Pred{ o.i( 0 ) } ) );
		if( o.is( "trim" ) )
			return o.i( 0 ) ? piece( v.trim_copy( ) ) : none( v.trim( ) );
		if( o.is( "tprefix" ) )
			return o.i( 0 ) ? piece( v.trim_prefix_copy( ) ) : none( v.trim_prefix( ) );
		if( o.is( "tsuffix" ) )
			return o.i( 0 ) ? piece( v.trim_suffix_copy( ) ) : none( v.trim_suffix( ) );
		if( o.is( "resize" ) ) {
			v.resize( n0 );
			return head( r );
		}
		if( o.is( "clear" ) ) {
			v.clear( );
			return head( r );
		}
		if( o.is( "reset" ) ) {
			v.reset( );
			return head( r );
		}
		if( o.is( "substr" ) )
			return o.i( 1 ) == -3 ? piece( v.substr( ) ) : o.i( 1 ) == -2 ? piece( v.substr( n0 ) ) : piece( v.substr( n0, arg( o.i( 1 ) ) ) );
		if( o.is( "substr_u" ) )
			return o.i( 1 ) == -2 ? piece( v.substr_unsafe( n0 ) ) : piece( v.substr_unsafe( n0, o.u( 1 ) ) );
		if( o.is( "expand_p" ) ) {
			if( n0 == 1 )
				v.expand_prefix( );
			else
				v.expand_prefix( n0 );
			return head( r );
		}
		if( o.is( "expand_s" ) ) {
			if( n0 == 1 )
				v.expand_suffix( );
			else
				v.expand_suffix( n0 );
			return head( r );
		}
		if( o.is( "split" ) or o.is( "rsplit" ) ) {
			Exact d( o.l( 0 ) );
			Res ps;
			int guard = 0;
			while( not v.empty( ) and ++guard < 200 ) {
				SV p = o.is( "split" ) ? ( o.i( 1 ) ? v.pop_front_until( d.p[0] ) : v.pop_front_until( d.sv( ) ) )
				                       : ( o.i( 1 ) ? v.pop_back_until( d.p[0] ) : v.pop_back_until( d.sv( ) ) );
				ps.push_back( off( p ) );
				ps.push_back( static_cast<Int>( p.size( ) ) );
			}
			head( r );
			r.insert( r.end( ), ps.begin( ), ps.end( ) );
			return;
		}
		if( o.is( "make" ) ) {
			C const *d = v.data( ) ? v.data( ) : text;
			Str s( d, v.size( ) );
			head( r );
			switch( o.i( 0 ) ) {
			case 0:
				list( r, SV( d, v.size( ) ) );
				break;
			case 1:
				list( r, SV( d, d + v.size( ) ) );
				break;
			case 2:
				list( r, SV( s ) );
				break;
			case 3:
				list( r, SV( std::basic_string_view<C>( s ) ) );
				break;
			case 4: {
				C const *p = s.c_str( );
				list( r, SV( p ) );
				break;
			}
			case 5: {
				Str big = s + Str( 2, ch( 'z' ) );
				list( r, SV( big, s.size( ) ) );
				break;
			}
			case 6:
				list( r, SV( s, s.size( ) + 3 ) );
				break;
			case 7: {
				SV a = v;
				SV b;
				b = a;
				list( r, b );
				break;
			}
			default:
				list( r, SV( s.c_str( ), s.size( ), daw::sv2::zero_terminated ) );
				break;
			}
			return;
		}
		vt::bad_op( o );
	}
};

int main( int argc, char **argv ) {
	auto a = vt::parse_args( argc, argv );
#if GRP == 0
	if( a.variant == "char" )
		return vt::run_world<World<char>>( a.sched, a.outp );
	if( a.variant == "wchar" )
		return vt::run_world<World<wchar_t>>( a.sched, a.outp );
#else
	if( a.variant == "u16" )
		return vt::run_world<World<char16_t>>( a.sched, a.outp );
	if( a.variant == "u32" )
		return vt::run_world<World<char32_t>>( a.sched, a.outp );
	if( a.variant == "u8" )
		return vt::run_world<World<char8_t>>( a.sched, a.outp );
#endif
	vt::bad_variant( a.variant );
}
