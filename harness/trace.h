// Shared trace recorder for all conformance drivers.
//
// A driver executes operation schedules (produced by TLC from the TLA+ specifications) against the real
// header_libraries code and records what the public API returned.  It contains no oracle: the recorded
// histories are judged by TLC against the specification (see lib/mbt.py, trace validation).
//
// usage:  drv -v VARIANT SCHEDULE OUT
#pragma once
#include <atomic>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback( void ( *cb )( void ) );
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( *malloc_hook )( void const volatile *, std::size_t ),
                                                          void ( *free_hook )( void const volatile * ) );

namespace vt {
	using Int = long long;
	using Res = std::vector<Int>;

	struct Arg {
		bool is_list = false;
		bool is_str = false;
		Int n = 0;
		std::string s;
		std::vector<Arg> v;
		std::vector<Int> ints( ) const {
			std::vector<Int> r;
			for( auto const &x : v )
				r.push_back( x.n );
			return r;
		}
	};
	struct Op {
		std::string k;
		std::vector<Arg> a; // arguments after the name
		std::string raw;
		bool is( char const *x ) const {
			return k == x;
		}
		Int i( std::size_t j ) const {
			return a.at( j ).n;
		}
		std::size_t u( std::size_t j ) const {
			return static_cast<std::size_t>( a.at( j ).n );
		}
		std::vector<Int> l( std::size_t j ) const {
			return a.at( j ).ints( );
		}
		std::string const &s( std::size_t j ) const {
			return a.at( j ).s;
		}
		std::string text( std::size_t j ) const { // list of char codes -> string
			std::string r;
			for( auto const &x : a.at( j ).v )
				r.push_back( static_cast<char>( x.n ) );
			return r;
		}
	};
	struct Cfg {
		std::map<std::string, Arg> m;
		std::string raw;
		bool has( std::string const &k ) const {
			return m.count( k ) > 0;
		}
		Int i( std::string const &k, Int d = 0 ) const {
			auto it = m.find( k );
			return it == m.end( ) ? d : it->second.n;
		}
		std::string s( std::string const &k ) const {
			auto it = m.find( k );
			return it == m.end( ) ? std::string( ) : it->second.s;
		}
		std::vector<Int> l( std::string const &k ) const {
			auto it = m.find( k );
			return it == m.end( ) ? std::vector<Int>( ) : it->second.ints( );
		}
	};
	struct History {
		Cfg c;
		std::vector<Op> ops;
	};

	struct Parser {
		char const *p;
		char const *e;
		void ws( ) {
			while( p < e and ( *p == ' ' or *p == '\n' or *p == '\r' or *p == '\t' ) )
				++p;
		}
		[[noreturn]] void fail( ) {
			std::fprintf( stderr, "bad schedule near: %.40s\n", p );
			std::_Exit( 3 );
		}
		bool eat( char c ) {
			ws( );
			if( p < e and *p == c ) {
				++p;
				return true;
			}
			return false;
		}
		void need( char c ) {
			if( not eat( c ) )
				fail( );
		}
		std::string str( ) {
			need( '"' );
			std::string r;
			while( p < e and *p != '"' )
				r.push_back( *p++ );
			need( '"' );
			return r;
		}
		Arg val( ) {
			ws( );
			Arg a;
			if( p < e and *p == '"' ) {
				a.is_str = true;
				a.s = str( );
			} else if( eat( '[' ) ) {
				a.is_list = true;
				if( not eat( ']' ) ) {
					do {
						a.v.push_back( val( ) );
					} while( eat( ',' ) );
					need( ']' );
				}
			} else if( p + 4 <= e and std::memcmp( p, "true", 4 ) == 0 ) {
				p += 4;
				a.n = 1;
			} else if( p + 5 <= e and std::memcmp( p, "false", 5 ) == 0 ) {
				p += 5;
			} else {
				char *q = nullptr;
				a.n = std::strtoll( p, &q, 10 );
				if( q == p )
					fail( );
				p = q;
			}
			return a;
		}
		History history( ) {
			History h;
			need( '[' );
			ws( );
			char const *b = p;
			need( '{' );
			if( not eat( '}' ) ) {
				do {
					ws( );
					std::string k = str( );
					need( ':' );
					h.c.m[k] = val( );
				} while( eat( ',' ) );
				need( '}' );
			}
			h.c.raw = std::string( b, p );
			need( ',' );
			need( '[' );
			if( not eat( ']' ) ) {
				do {
					ws( );
					char const *ob = p;
					Arg o = val( );
					Op op;
					op.raw = std::string( ob, p );
					if( not o.is_list or o.v.empty( ) or not o.v[0].is_str )
						fail( );
					op.k = o.v[0].s;
					op.a.assign( o.v.begin( ) + 1, o.v.end( ) );
					h.ops.push_back( std::move( op ) );
				} while( eat( ',' ) );
				need( ']' );
			}
			need( ']' );
			return h;
		}
	};

	// ---- recording and death reporting ------------------------------------------------------------
	inline std::FILE *out = nullptr;
	inline std::string cur;       // text of the current history so far
	inline std::string cur_op;    // operation being executed
	inline char const *death = "sanitizer";
	inline std::atomic<bool> dying{ false };

	inline void flush_dead( ) {
		if( dying.exchange( true ) )
			return;
		if( out == nullptr )
			return;
		std::string line = cur;
		line += "],\"crash\":\"";
		line += death;
		line += "\",\"at\":";
		line += cur_op.empty( ) ? "[\"?\"]" : cur_op.c_str( );
		line += "}\n";
		std::fwrite( line.data( ), 1, line.size( ), out );
		std::fflush( out );
	}
	inline void on_signal( int sig ) {
		death = sig == SIGALRM ? "hang" : ( sig == SIGABRT ? "abort" : "signal" );
		flush_dead( );
		std::_Exit( sig == SIGALRM ? 97 : 98 );
	}

	// ---- instrumented objects ---------------------------------------------------------------------
	inline Int live = 0;       // instrumented objects alive
	inline Int errs = 0;       // lifetime errors seen (destroy of dead object, use of dead object, bitwise move)
	inline Int fuse = -1;      // >=0: number of element operations before one throws
	inline Int elem_ops = 0;   // element operations performed
	inline Int blocks = 0;     // outstanding heap blocks
	inline void hook_malloc( void const volatile *p, std::size_t ) {
		if( p )
			__atomic_fetch_add( &blocks, 1, __ATOMIC_RELAXED );
	}
	inline void hook_free( void const volatile *p ) {
		if( p )
			__atomic_fetch_sub( &blocks, 1, __ATOMIC_RELAXED );
	}
	inline Int destroyed = 0;

	struct Boom {};

	inline void tick( ) {
		++elem_ops;
		if( fuse >= 0 ) {
			if( fuse == 0 ) {
				fuse = -1;
				throw Boom{ };
			}
			--fuse;
		}
	}

	enum class Life : unsigned { Dead = 0xDEADDEADU, Alive = 0xA11FEA11U };

	// Value type with full instrumentation. Copyable: copy allowed.  MayThrow: element operations may throw.
	template<bool Copyable, bool MoveThrows = false>
	struct Tracked {
		Int v = 0;
		Life state = Life::Alive;
		Tracked const *self = this;

		void born( ) {
			state = Life::Alive;
			self = this;
			++live;
		}
		static void chk( Tracked const &x ) {
			if( x.state != Life::Alive or x.self != &x )
				++errs;
		}
		Tracked( ) {
			state = Life::Dead;
			tick( );
			born( );
		}
		Tracked( Int x )
		  : v( x ) {
			state = Life::Dead;
			tick( );
			born( );
		}
		Tracked( Tracked const &o )
		  requires( Copyable )
		{
			state = Life::Dead;
			chk( o );
			tick( );
			v = o.v;
			born( );
		}
		Tracked( Tracked &&o ) noexcept( not MoveThrows ) {
			state = Life::Dead;
			chk( o );
			if constexpr( MoveThrows )
				tick( );
			v = o.v;
			if( &o != this )
				o.v = -7;
			born( );
		}
		Tracked &operator=( Tracked const &o )
		  requires( Copyable )
		{
			chk( *this );
			chk( o );
			tick( );
			v = o.v;
			return *this;
		}
		Tracked &operator=( Tracked &&o ) noexcept( not MoveThrows ) {
			chk( *this );
			chk( o );
			if constexpr( MoveThrows )
				tick( );
			if( &o != this ) {
				v = o.v;
				o.v = -7;
			}
			return *this;
		}
		~Tracked( ) {
			chk( *this );
			state = Life::Dead;
			v = -9;
			--live;
			++destroyed;
		}
		friend bool operator==( Tracked const &a, Tracked const &b ) {
			chk( a );
			chk( b );
			return a.v == b.v;
		}
		friend auto operator<=>( Tracked const &a, Tracked const &b ) {
			chk( a );
			chk( b );
			return a.v <=> b.v;
		}
		operator Int( ) const {
			chk( *this );
			return v;
		}
	};

	template<typename F>
	int run_file( char const *sched, char const *outp, F &&run_one ) {
		std::string text;
		{
			std::FILE *f = std::fopen( sched, "rb" );
			if( not f ) {
				std::perror( "schedule" );
				return 3;
			}
			char buf[1 << 16];
			std::size_t n;
			while( ( n = std::fread( buf, 1, sizeof buf, f ) ) > 0 )
				text.append( buf, n );
			std::fclose( f );
		}
		out = std::fopen( outp, "wb" );
		if( not out )
			return 3;
		__sanitizer_set_death_callback( flush_dead );
		for( int s : { SIGABRT, SIGALRM, SIGTERM } )
			std::signal( s, on_signal );
		std::set_terminate( [] {
			death = "terminate";
			flush_dead( );
			std::_Exit( 98 );
		} );
		cur.reserve( 1 << 22 );
		cur_op.reserve( 1 << 16 );
		__sanitizer_install_malloc_and_free_hooks( hook_malloc, hook_free );
		Parser P{ text.data( ), text.data( ) + text.size( ) };
		for( P.ws( ); P.p < P.e; P.ws( ) ) {
			History h = P.history( );
			alarm( 10 );
			for( int attempt = 0;; ++attempt ) {
				cur = "{\"c\":";
				cur += h.c.raw;
				cur += ",\"ev\":[";
				cur_op.clear( );
				live = 0;
				errs = 0;
				fuse = -1;
				Int const b0 = blocks;
				bool first = true;
				auto emit = [&]( std::string const &op, Res const &r ) {
					if( not first )
						cur += ',';
					first = false;
					cur += "{\"o\":";
					cur += op;
					cur += ",\"r\":[";
					for( std::size_t i = 0; i < r.size( ); ++i ) {
						if( i )
							cur += ',';
						cur += std::to_string( r[i] );
					}
					cur += "]}";
				};
				run_one( h, emit );
				Int const leaked = blocks - b0;
				if( leaked != 0 and attempt == 0 )
					continue; // one-time lazily allocated statics disappear on the second run
				cur_op = "[\"__end\"]";
				emit( cur_op, Res{ live, leaked, errs } );
				break;
			}
			alarm( 0 );
			cur += "]}\n";
			std::fwrite( cur.data( ), 1, cur.size( ), out );
			cur = "{\"c\":0,\"ev\":[";
		}
		std::fclose( out );
		out = nullptr;
		std::_Exit( 0 );
	}

	// World: constructible from Cfg, void op(Op const&, Res&)
	template<typename World>
	int run_world( char const *sched, char const *outp ) {
		return run_file( sched, outp, []( History const &h, auto &emit ) {
			auto *w = new World( h.c );
			for( auto const &o : h.ops ) {
				cur_op = o.raw;
				Res r;
				{
					w->op( o, r );
				}
				emit( o.raw, r );
			}
			if constexpr( requires( Res & r ) { w->fin( r ); } ) {
				cur_op = "[\"fin\"]";
				Res r;
				w->fin( r );
				emit( cur_op, r );
			}
			cur_op = "[\"__end\"]";
			delete w;
		} );
	}
	struct Args {
		std::string variant;
		char const *sched;
		char const *outp;
	};
	inline Args parse_args( int argc, char **argv ) {
		if( argc != 5 or std::string( argv[1] ) != "-v" ) {
			std::fprintf( stderr, "usage: drv -v VARIANT SCHEDULE OUT\n" );
			std::_Exit( 3 );
		}
		return Args{ argv[2], argv[3], argv[4] };
	}
	[[noreturn]] inline void bad_op( Op const &o ) {
		std::fprintf( stderr, "driver does not know operation %s\n", o.raw.c_str( ) );
		std::_Exit( 3 );
	}
	[[noreturn]] inline void bad_variant( std::string const &v ) {
		std::fprintf( stderr, "unknown variant %s\n", v.c_str( ) );
		std::_Exit( 3 );
	}
} // namespace vt
