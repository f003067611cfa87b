// Deterministic scheduler.  Include this before any daw header: it includes the whole standard library, and then
// replaces std::atomic, std::atomic_ref, the clocks and std::this_thread for the code under test.  Every operation on
// an atomic, every clock read, yield and sleep is a schedule point; one thread runs at a time, as told by the history.
// Vector clocks follow the memory orders that were passed, so that "happens before" is known (vs::VC).
#pragma once
#include <bits/stdc++.h>
#include "trace.h"

namespace vs {
	using Int = vt::Int;
	inline constexpr int MaxT = 5; // index 0 is the driver itself
	struct VC {
		std::array<Int, MaxT> c{ };
		void join( VC const &o ) {
			for( int i = 0; i < MaxT; ++i )
				c[i] = std::max( c[i], o.c[i] );
		}
		bool operator==( VC const & ) const = default;
	};
	struct Th {
		std::binary_semaphore go{ 0 }, back{ 0 };
		std::function<void( )> job{ };
		bool busy = false;
		bool blocked = false;         // inside of atomic wait
		void const *waddr = nullptr;
		Int wake = -1;                // sleeping until
		Int points = 0;
		bool spur = false;            // the next weak compare exchange fails
		VC vc{ }, acq{ }, rel{ };
		bool has_rel = false;
	};
	inline Th th[MaxT];
	inline thread_local int self = 0;
	inline Int now = 0; // nanoseconds
	inline std::map<void const *, VC> loc{ };

	inline void point( ) {
		th[self].vc.c[static_cast<std::size_t>( self )]++;
		if( self != 0 ) {
			++th[self].points;
			th[self].back.release( );
			th[self].go.acquire( );
		}
	}
	inline void start_workers( ) {
		static bool done = false;
		if( done )
			return;
		done = true;
		for( int i = 1; i < MaxT; ++i )
			std::thread( [i] {
				self = i;
				for( ;; ) {
					th[i].go.acquire( );
					th[i].job( );
					th[i].busy = false;
					th[i].back.release( );
				}
			} ).detach( );
	}
	inline void reset( ) {
		start_workers( );
		now = 0;
		loc.clear( );
		for( int i = 0; i < MaxT; ++i ) {
			th[i].vc = th[i].acq = th[i].rel = VC{ };
			th[i].has_rel = th[i].spur = th[i].blocked = false;
			th[i].wake = -1;
			th[i].points = 0;
			th[i].job = nullptr;
		}
	}
	// everything the driver did happens before the job
	inline void begin( int t, std::function<void( )> f ) {
		th[t].vc.join( th[0].vc );
		th[t].job = std::move( f );
		th[t].busy = true;
		th[t].blocked = false;
		th[t].wake = -1;
	}
	// run up to the next schedule point; a sleeping thread is woken by letting the time pass
	inline void resume( int t ) {
		if( not th[t].busy or th[t].blocked )
			return;
		if( th[t].wake >= 0 ) {
			now = std::max( now, th[t].wake );
			th[t].wake = -1;
		}
		th[t].go.release( );
		th[t].back.acquire( );
	}
	// start the workers before blocks are counted
	inline void warm( ) {
		reset( );
		for( int t = 1; t < MaxT; ++t ) {
			begin( t, [] { point( ); } );
			while( th[t].busy )
				resume( t );
		}
		reset( );
	}
	inline bool is_acq( std::memory_order m ) {
		return m == std::memory_order_acquire or m == std::memory_order_acq_rel or m == std::memory_order_seq_cst or m == std::memory_order_consume;
	}
	inline bool is_rel( std::memory_order m ) {
		return m == std::memory_order_release or m == std::memory_order_acq_rel or m == std::memory_order_seq_cst;
	}
	inline void on_load( void const *p, std::memory_order m ) {
		auto &l = loc[p];
		if( is_acq( m ) )
			th[self].vc.join( l );
		else
			th[self].acq.join( l );
	}
	inline void on_store( void const *p, std::memory_order m, bool rmw ) {
		auto &l = loc[p];
		if( not rmw )
			l = VC{ };
		if( is_rel( m ) )
			l.join( th[self].vc );
		else if( th[self].has_rel )
			l.join( th[self].rel );
	}
	inline void on_fence( std::memory_order m ) {
		point( );
		if( is_acq( m ) )
			th[self].vc.join( th[self].acq );
		if( is_rel( m ) ) {
			th[self].rel = th[self].vc;
			th[self].has_rel = true;
		}
	}
	// plain data that must not be accessed concurrently
	struct Data {
		std::array<VC, MaxT> rd{ };
		VC wr{ };
		int wr_by = 0;
		std::array<bool, MaxT> has{ };
		static bool leq( VC const &a, int by, VC const &b ) {
			return a.c[static_cast<std::size_t>( by )] <= b.c[static_cast<std::size_t>( by )];
		}
		bool ok_read( ) {
			auto u = static_cast<std::size_t>( self );
			th[self].vc.c[u]++;
			bool r = leq( wr, wr_by, th[self].vc );
			rd[u] = th[self].vc;
			has[u] = true;
			return r;
		}
		bool ok_write( ) {
			auto u = static_cast<std::size_t>( self );
			th[self].vc.c[u]++;
			bool r = leq( wr, wr_by, th[self].vc );
			for( int i = 0; i < MaxT; ++i )
				if( has[static_cast<std::size_t>( i )] and not leq( rd[static_cast<std::size_t>( i )], i, th[self].vc ) )
					r = false;
			wr = th[self].vc;
			wr_by = self;
			return r;
		}
	};
	inline std::memory_order fail_order( std::memory_order m ) {
		return m == std::memory_order_acq_rel ? std::memory_order_acquire : m == std::memory_order_release ? std::memory_order_relaxed : m;
	}

	template<typename T, typename D>
	struct Ops {
		using value_type = T;
		static constexpr std::memory_order sc = std::memory_order_seq_cst;
		T *ptr( ) const noexcept {
			return static_cast<D const *>( this )->address( );
		}
		T load( std::memory_order m = sc ) const noexcept {
			point( );
			on_load( ptr( ), m );
			return *ptr( );
		}
		operator T( ) const noexcept {
			return load( );
		}
		void store( T v, std::memory_order m = sc ) const noexcept {
			point( );
			*ptr( ) = v;
			on_store( ptr( ), m, false );
		}
		template<typename F>
		T rmw( std::memory_order m, F f ) const noexcept {
			point( );
			on_load( ptr( ), m );
			T old = *ptr( );
			*ptr( ) = f( old );
			on_store( ptr( ), m, true );
			return old;
		}
		T exchange( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T ) { return v; } );
		}
		bool cas( T &e, T d, std::memory_order s, std::memory_order f, bool weak ) const noexcept {
			point( );
			bool const spurious = weak and std::exchange( th[self].spur, false );
			if( not spurious and std::memcmp( ptr( ), &e, sizeof( T ) ) == 0 ) {
				on_load( ptr( ), s );
				*ptr( ) = d;
				on_store( ptr( ), s, true );
				return true;
			}
			on_load( ptr( ), f );
			e = *ptr( );
			return false;
		}
		bool compare_exchange_weak( T &e, T d, std::memory_order s, std::memory_order f ) const noexcept {
			return cas( e, d, s, f, true );
		}
		bool compare_exchange_weak( T &e, T d, std::memory_order s = sc ) const noexcept {
			return cas( e, d, s, fail_order( s ), true );
		}
		bool compare_exchange_strong( T &e, T d, std::memory_order s, std::memory_order f ) const noexcept {
			return cas( e, d, s, f, false );
		}
		bool compare_exchange_strong( T &e, T d, std::memory_order s = sc ) const noexcept {
			return cas( e, d, s, fail_order( s ), false );
		}
		// two's complement arithmetic, as std::atomic has
		static T add( T a, T b ) {
			if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> ) {
				using U = std::make_unsigned_t<T>;
				return static_cast<T>( static_cast<U>( static_cast<U>( a ) + static_cast<U>( b ) ) );
			} else
				return static_cast<T>( a + b );
		}
		static T sub( T a, T b ) {
			if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> ) {
				using U = std::make_unsigned_t<T>;
				return static_cast<T>( static_cast<U>( static_cast<U>( a ) - static_cast<U>( b ) ) );
			} else
				return static_cast<T>( a - b );
		}
		T fetch_add( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T o ) { return add( o, v ); } );
		}
		T fetch_sub( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T o ) { return sub( o, v ); } );
		}
		T fetch_and( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T o ) { return static_cast<T>( o & v ); } );
		}
		T fetch_or( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T o ) { return static_cast<T>( o | v ); } );
		}
		T fetch_xor( T v, std::memory_order m = sc ) const noexcept {
			return rmw( m, [&]( T o ) { return static_cast<T>( o ^ v ); } );
		}
		T operator+=( T v ) const noexcept {
			return add( fetch_add( v ), v );
		}
		T operator-=( T v ) const noexcept {
			return sub( fetch_sub( v ), v );
		}
		T operator&=( T v ) const noexcept {
			return static_cast<T>( fetch_and( v ) & v );
		}
		T operator|=( T v ) const noexcept {
			return static_cast<T>( fetch_or( v ) | v );
		}
		T operator^=( T v ) const noexcept {
			return static_cast<T>( fetch_xor( v ) ^ v );
		}
		T operator++( ) const noexcept {
			return add( fetch_add( T( 1 ) ), T( 1 ) );
		}
		T operator--( ) const noexcept {
			return sub( fetch_sub( T( 1 ) ), T( 1 ) );
		}
		T operator++( int ) const noexcept {
			return fetch_add( T( 1 ) );
		}
		T operator--( int ) const noexcept {
			return fetch_sub( T( 1 ) );
		}
		bool is_lock_free( ) const noexcept {
			return true;
		}
		void wait( T old, std::memory_order m = sc ) const noexcept {
			for( ;; ) {
				point( );
				on_load( ptr( ), m );
				if( std::memcmp( ptr( ), &old, sizeof( T ) ) != 0 )
					return;
				th[self].blocked = true;
				th[self].waddr = ptr( );
				point( );
			}
		}
		void notify_all( ) const noexcept {
			point( );
			for( auto &t : th )
				if( t.blocked and t.waddr == ptr( ) )
					t.blocked = false;
		}
		void notify_one( ) const noexcept {
			point( );
			for( auto &t : th )
				if( t.blocked and t.waddr == ptr( ) ) {
					t.blocked = false;
					break;
				}
		}
	};
} // namespace vs

namespace std {
	template<typename T>
	struct vp_atomic_ref : vs::Ops<T, vp_atomic_ref<T>> {
		static constexpr std::size_t required_alignment = std::atomic_ref<T>::required_alignment;
		static constexpr bool is_always_lock_free = true;
		T *p;
		explicit vp_atomic_ref( T &r ) noexcept
		  : p( &r ) {}
		vp_atomic_ref( vp_atomic_ref const & ) noexcept = default;
		T *address( ) const noexcept {
			return p;
		}
		T operator=( T v ) const noexcept {
			this->store( v );
			return v;
		}
	};
	template<typename T>
	struct vp_atomic : vs::Ops<T, vp_atomic<T>> {
		static constexpr bool is_always_lock_free = true;
		mutable T v{ };
		constexpr vp_atomic( ) noexcept = default;
		constexpr vp_atomic( T x ) noexcept
		  : v( x ) {}
		vp_atomic( vp_atomic const & ) = delete;
		vp_atomic &operator=( vp_atomic const & ) = delete;
		T *address( ) const noexcept {
			return std::addressof( v );
		}
		T operator=( T x ) noexcept {
			this->store( x );
			return x;
		}
	};
	using vp_atomic_bool = vp_atomic<bool>;
	using vp_atomic_int = vp_atomic<int>;
	using vp_atomic_uint = vp_atomic<unsigned>;
	using vp_atomic_size_t = vp_atomic<std::size_t>;
	struct vp_atomic_flag {
		vp_atomic<bool> b{ false };
		bool test_and_set( std::memory_order m = std::memory_order_seq_cst ) noexcept {
			return b.exchange( true, m );
		}
		bool test( std::memory_order m = std::memory_order_seq_cst ) const noexcept {
			return b.load( m );
		}
		void clear( std::memory_order m = std::memory_order_seq_cst ) noexcept {
			b.store( false, m );
		}
	};
	template<typename T>
	T atomic_load( vp_atomic<T> const *a ) noexcept {
		return a->load( );
	}
	template<typename T>
	T atomic_load_explicit( vp_atomic<T> const *a, std::memory_order m ) noexcept {
		return a->load( m );
	}
	template<typename T>
	void atomic_store( vp_atomic<T> *a, std::type_identity_t<T> v ) noexcept {
		a->store( v );
	}
	template<typename T>
	void atomic_store_explicit( vp_atomic<T> *a, std::type_identity_t<T> v, std::memory_order m ) noexcept {
		a->store( v, m );
	}
	template<typename T>
	void atomic_wait( vp_atomic<T> const *a, std::type_identity_t<T> v ) noexcept {
		a->wait( v );
	}
	template<typename T>
	void atomic_wait_explicit( vp_atomic<T> const *a, std::type_identity_t<T> v, std::memory_order m ) noexcept {
		a->wait( v, m );
	}
	template<typename T>
	void atomic_notify_all( vp_atomic<T> *a ) noexcept {
		a->notify_all( );
	}
	template<typename T>
	void atomic_notify_one( vp_atomic<T> *a ) noexcept {
		a->notify_one( );
	}
	inline void vp_atomic_thread_fence( std::memory_order m ) noexcept {
		vs::on_fence( m );
	}
	namespace chrono {
		struct vp_clock {
			using duration = std::chrono::nanoseconds;
			using rep = duration::rep;
			using period = duration::period;
			using time_point = std::chrono::time_point<vp_clock>;
			static constexpr bool is_steady = true;
			static time_point now( ) noexcept {
				vs::point( );
				return time_point( duration( vs::now ) );
			}
		};
	} // namespace chrono
	namespace vp_this_thread {
		inline void yield( ) noexcept {
			vs::point( );
		}
		template<typename R, typename P>
		void sleep_for( std::chrono::duration<R, P> const &d ) {
			vs::th[vs::self].wake = vs::now + std::max<vs::Int>( 0, std::chrono::ceil<std::chrono::nanoseconds>( d ).count( ) );
			vs::point( );
		}
		template<typename D>
		void sleep_until( std::chrono::time_point<std::chrono::vp_clock, D> const &p ) {
			vs::th[vs::self].wake = std::max<vs::Int>( vs::now, std::chrono::ceil<std::chrono::nanoseconds>( p.time_since_epoch( ) ).count( ) );
			vs::point( );
		}
		inline std::thread::id get_id( ) noexcept {
			return std::this_thread::get_id( );
		}
	} // namespace vp_this_thread
} // namespace std
#define atomic vp_atomic
#define atomic_ref vp_atomic_ref
#define atomic_bool vp_atomic_bool
#define atomic_int vp_atomic_int
#define atomic_uint vp_atomic_uint
#define atomic_size_t vp_atomic_size_t
#define atomic_flag vp_atomic_flag
#define atomic_thread_fence vp_atomic_thread_fence
#define high_resolution_clock vp_clock
#define steady_clock vp_clock
#define system_clock vp_clock
#define this_thread vp_this_thread
