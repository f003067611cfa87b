HK='''#include <bits/stdc++.h>
// an atomic_ref that runs a hook before every operation
static std::function<void()> hook; static void hk(){ if(hook){ auto h=hook; hook=nullptr; h(); } }
namespace std { template<class T> struct hk_ref { static constexpr std::size_t required_alignment=std::atomic_ref<T>::required_alignment; static constexpr bool is_always_lock_free=true; std::atomic_ref<T> r; explicit hk_ref(T &t): r(t) {}
 using mo=std::memory_order; static constexpr mo sc=std::memory_order_seq_cst;
 T load(mo m=sc) const noexcept { hk(); return r.load(m); } void store(T v, mo m=sc) const noexcept { hk(); r.store(v,m); } T exchange(T v, mo m=sc) const noexcept { hk(); return r.exchange(v,m); }
 bool compare_exchange_weak(T &e,T d,mo m=sc) const noexcept { hk(); return r.compare_exchange_strong(e,d,m); } bool compare_exchange_weak(T &e,T d,mo s,mo f) const noexcept { hk(); return r.compare_exchange_strong(e,d,s,f); }
 bool compare_exchange_strong(T &e,T d,mo m=sc) const noexcept { hk(); return r.compare_exchange_strong(e,d,m); } bool compare_exchange_strong(T &e,T d,mo s,mo f) const noexcept { hk(); return r.compare_exchange_strong(e,d,s,f); }
 T fetch_add(T v,mo m=sc) const noexcept { hk(); return r.fetch_add(v,m); } T fetch_sub(T v,mo m=sc) const noexcept { hk(); return r.fetch_sub(v,m); } T fetch_and(T v,mo m=sc) const noexcept { hk(); return r.fetch_and(v,m); } T fetch_or(T v,mo m=sc) const noexcept { hk(); return r.fetch_or(v,m); } T fetch_xor(T v,mo m=sc) const noexcept { hk(); return r.fetch_xor(v,m); }
 T operator+=(T v) const noexcept { hk(); return r+=v; } T operator-=(T v) const noexcept { hk(); return r-=v; } T operator++() const noexcept { hk(); return ++r; } T operator--() const noexcept { hk(); return --r; } T operator++(int) const noexcept { hk(); return r++; } T operator--(int) const noexcept { hk(); return r--; } T operator&=(T v) const noexcept { hk(); return r&=v; } T operator|=(T v) const noexcept { hk(); return r|=v; } T operator^=(T v) const noexcept { hk(); return r^=v; } bool is_lock_free() const noexcept { return true; } operator T() const noexcept { return load(); } }; }
#define atomic_ref hk_ref
// f with the other thread running g before the n-th atomic access of f, for every n
template<class F> void before( int n, F g ) { if( n == 0 ) { hook=g; } else { hook=[n,g]{ before( n-1, g ); }; } }
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c11-upgrade-check", "C11", "include/daw/daw_shared_function.h", [("""		auto count = self.m_strong_count.load( std::memory_order_relaxed ); \\
		while( count > 0 ) {                                                \\
			if( self.m_strong_count.compare_exchange_weak(                    \\
			      count,                                                      \\
			      count + 1,                                                  \\
			      std::memory_order_acq_rel,                                  \\
			      std::memory_order_relaxed ) ) {                             \\
				self.m_weak_count.fetch_add( 1, std::memory_order_relaxed );    \\
				return &self;                                                   \\
			}                                                                 \\
		}                                                                   \\
""","""		if( self.m_strong_count.load( std::memory_order_acquire ) > 0 ) {   \\
			return self.strong_copy( );                                       \\
		}                                                                   \\
""")],
 "locking a weak handle while another thread drops the last strong handle", "the weak handle is promoted after the callable was destroyed",
 HK+'''#include <daw/daw_shared_function.h>
static int destroyed=0; struct F { bool live=true; F()=default; F(F &&o): live(std::exchange(o.live,false)) {} ~F(){ if(live) ++destroyed; } int operator()() const { return 5; } };
int main(){ for( int n=0; n<6; ++n ) { destroyed=0; daw::shared_function<int()> s{ F{} }; auto w=s.get_weak(); before( n, [&]{ s=daw::shared_function<int()>{}; } ); auto l=w.lock(); hook=nullptr; if( l ) CHECK( destroyed==0 ); } return 0; }
''')
seed("c11-assign-order", "C11", "include/daw/daw_shared_function.h", [("""				auto *old = m_storage;
				m_storage = rhs.m_storage ? rhs.m_storage->strong_copy( ) : nullptr;
				strong_release( old );""","""				strong_release( std::exchange( m_storage, nullptr ) );
				m_storage = rhs.m_storage ? rhs.m_storage->strong_copy( ) : nullptr;""")],
 "assigning a handle that is owned by the callable being replaced", "the source is destroyed before it is read",
 '''#include <cstdio>
#include <daw/daw_ensure.h>
#include <daw/daw_shared_function.h>
#include <memory>
using S = daw::shared_function<int()>; static int alive=0; static S *inner=nullptr;
struct A { bool own=true; A(){ ++alive; } A(A &&o): own(std::exchange(o.own,false)) {} ~A(){ if(own) --alive; } int operator()() const { return 1; } };
struct B { std::unique_ptr<S> n; int operator()() const { return 2; } };
int main(){ S s{ B{ std::make_unique<S>( A{} ) } }; { }
 struct P { std::unique_ptr<S> n; int operator()() const { inner=n.get(); return 3; } }; S t{ P{ std::make_unique<S>( A{} ) } }; t(); int before=alive; t = static_cast<S const &>( *inner ); if( before!=2 || alive!=2 || t()!=1 ) { std::printf("destroyed\\n"); return 1; } return 0; }
''', "-fsanitize=address")
seed("c11-relaxed-dec", "C11", "include/daw/daw_shared_function.h", [("""		return --m_strong_count == 0;                                       \\""","""		return m_strong_count.fetch_sub( 1, std::memory_order_relaxed ) == 1; \\"""),("""		return --m_weak_count == 0;                                         \\""","""		return m_weak_count.fetch_sub( 1, std::memory_order_relaxed ) == 1; \\""")],
 "a thread that calls and drops its handle while another one drops the last handle", "the call does not happen before the destruction",
 '''#include <cstdio>
#include <thread>
#include <atomic>
#include <daw/daw_ensure.h>
#include <daw/daw_shared_function.h>
using S = daw::shared_function<int()>;
struct A { int *p; explicit A(int x): p(new int(x)) {} A(A &&o): p(std::exchange(o.p,nullptr)) {} ~A(){ if(p) *p=0; delete p; } int operator()() const { return ++*p; } };
int main(){ for(int n=0;n<300;++n){ S s{ A(n) }; S t=s; std::atomic<int> go{0}; std::thread a([&]{ go.fetch_add(1,std::memory_order_relaxed); while(go.load(std::memory_order_relaxed)<1){} t(); t=S{}; }); while(go.load(std::memory_order_relaxed)<1){} for(int volatile i=0;i<n*20;i=i+1){} s=S{}; a.join(); } return 0; }
''', "-O1 -g -fsanitize=thread -pthread")
W='''#include <cstdio>
#include <thread>
#include <atomic>
#include <chrono>
#include <daw/daw_atomic_wait.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
using namespace std::chrono_literals;
'''
seed("c12-one-change", "C12", "include/daw/daw_atomic_wait.h", [("""		while( not predicate( const_current ) ) {
			std::atomic_wait_explicit( object, current, order );""","""		if( not predicate( const_current ) ) {
			std::atomic_wait_explicit( object, current, order );""")],
 "a change to another value than the awaited one during the wait", "the wait returns for any change",
 W+'''int main(){ std::atomic<int> a{0}; std::atomic<bool> done{false}; std::thread t([&]{ daw::atomic_wait_value_equal( &a, 2 ); done=true; }); std::this_thread::sleep_for(100ms); a=1; a.notify_all(); std::this_thread::sleep_for(200ms); bool early=done; a=2; a.notify_all(); t.join(); CHECK(not early); return 0; }
''', "-pthread")
seed("c12-give-up-early", "C12", "include/daw/daw_atomic_wait.h", [("""			if( elapsed >= max_elapsed ) {
				return false;
			}
			if(""","""			// another round of sleep would overshoot
			if( elapsed + elapsed / 2 >= max_elapsed ) {
				return false;
			}
			if(""")],
 "a timed wait whose condition does not become true for more than two thirds of its time", "the wait reports a timeout before its deadline",
 W+'''int main(){ std::atomic<int> a{0}; auto s=std::chrono::high_resolution_clock::now(); auto r=daw::atomic_wait_for( &a, 0, 100ms ); auto e=std::chrono::high_resolution_clock::now()-s; CHECK(r==daw::wait_status::timeout); CHECK(e>=100ms); return 0; }
''', "-pthread")
seed("c13-cas-reload", "C13", "include/daw/daw_cx_atomic.h", [("""				return std::atomic_ref<value_type>( self.m_value )
				  .compare_exchange_strong( expected, desired, order );""","""				// do not write to the cache line when it can not succeed
				auto ref = std::atomic_ref<value_type>( self.m_value );
				if( ref.load( order ) != expected ) {
					expected = ref.load( order );
					return false;
				}
				return ref.compare_exchange_strong( expected, desired, order );""")],
 "another thread changing the value between two reads of a failing compare exchange", "a failed compare exchange reports the expected value as observed",
 HK+'''#include <daw/daw_cx_atomic.h>
int main(){ for(int n=0;n<4;++n){ daw::atomic<int> a(1); before( n, [&]{ a=0; } ); int e=0; bool ok=a.compare_exchange_strong( e, 7 ); hook=nullptr; CHECK( ok or e!=0 ); } return 0; }
''')
seed("c13-add-reload", "C13", "include/daw/daw_cx_atomic.h", [("""				return std::atomic_ref<value_type>( self.m_value ) += arg;""","""				std::atomic_ref<value_type>( self.m_value ).fetch_add( arg );
				return self.load( );""")],
 "another thread changing the value between the addition and the read", "+= returns a value that includes later operations",
 HK+'''#include <daw/daw_cx_atomic.h>
int main(){ for(int n=0;n<4;++n){ daw::atomic<int> a(1); before( n, [&]{ ++a; } ); int r=(a += 10); hook=nullptr; int v=a.load(); CHECK( v==12 or v==11 ); CHECK( r==11 or (r==12 and n==0) ); } return 0; }
''')
seed("c13-and-two-tries", "C13", "include/daw/daw_cx_atomic.h", [("""				return std::atomic_ref<value_type>( self.m_value ).fetch_and( arg, m );""","""				auto const ref = std::atomic_ref<value_type>( self.m_value );
				auto result = ref.load( std::memory_order_relaxed );
				// nothing to clear
				if( ( result & arg ) == result ) {
					return result;
				}
				if( not ref.compare_exchange_strong( result, result & arg, m ) ) {
					ref.store( result & arg, m );
				}
				return result;""")],
 "two other writers, one before the compare exchange and one before the store", "an update by another thread is lost",
 HK+'''#include <daw/daw_cx_atomic.h>
int main(){ daw::atomic<unsigned> a(7U); before( 1, [&]{ a=15U; before( 1, [&]{ a=31U; } ); } ); unsigned r=a.fetch_and( 12U ); hook=nullptr; unsigned v=a.load(); CHECK( (r==7U and v==4U) or (r==31U and v==12U) or (r==15U and v==31U) or (r==7U and v==31U)); return 0; }
''')
seed("c13-ct-and", "C13", "include/daw/daw_cx_atomic.h", [("""				(void)m;
				auto result = self.m_value;
				self.m_value |= arg;
				return result;""","""				(void)m;
				return std::exchange( self.m_value, static_cast<value_type>( self.m_value + arg ) );""")],
 "fetch_or in a constant expression with bits that are already set", "bits carry",
 '''#include <daw/daw_cx_atomic.h>
constexpr int f( int v, int o ) { daw::atomic<int> a( v ); a.fetch_or( o ); return a.load( ); }
int main(){ constexpr int x=f( 5, 4 ); return x==5 ? 0 : 1; }
''')
seed("c12-reload", "C12", "include/daw/daw_atomic_wait.h", [("""		if( current == old ) {
			return wait_status::timeout;
		}
		return wait_status::found;""","""		if( std::atomic_load_explicit( object, order ) == old ) {
			return wait_status::timeout;
		}
		return wait_status::found;""")],
 "a value that changes and changes back between the poll that saw it and the return", "the wait reports a timeout long before its deadline",
 W+'''struct T; static std::atomic<T> *g=nullptr; static int eqs=0;
struct T { int v; };
static bool operator==(T const &a, T const &b);
static bool operator!=(T const &a, T const &b);
static bool operator==(T const &a, T const &b){ if(++eqs==16) { bool r=a.v==b.v; g->store(T{1}); return r; } return a.v==b.v; }
static bool operator!=(T const &a, T const &b){ bool r=a.v!=b.v; if(r) g->store(T{0}); return r; }
int main(){ std::atomic<T> a{T{0}}; g=&a; auto s=std::chrono::steady_clock::now(); auto r=daw::atomic_wait_for( &a, T{0}, 10s ); CHECK( r==daw::wait_status::found or std::chrono::steady_clock::now()-s>=10s ); return 0; }
''', "-pthread")
