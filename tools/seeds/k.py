H='''#include <cstdio>
#include <atomic>
#include <cassert>
#include <thread>
#include <utility>
#include <daw/daw_allow_once.h>
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c16-once-race", "C16", "include/daw/daw_allow_once.h", [("""			return m_called.exchange( true, std::memory_order_acq_rel );""","""			// avoid writing to a shared cache line once the flag is set
			if( m_called.load( std::memory_order_acquire ) ) {
				return true;
			}
			m_called.store( true, std::memory_order_release );
			return false;""")],
 "two threads that check the flag at the same time", "both threads win",
 H+'''int main(){ int multi=0, none=0; for(int n=0;n<20000;++n){ daw::allow_once_t f{}; std::atomic<int> ready{0}, win{0}; auto go=[&]{ ++ready; while(ready<2){} if(not f.check()) ++win; }; std::thread a(go); go(); a.join(); if(win>1) ++multi; if(win<1) ++none; } std::printf("%d\\n",multi); CHECK(multi==0); CHECK(none==0); return 0; }
''', "-O1 -pthread")
seed("c16-release-keeps", "C16", "include/daw/daw_unique_resource.h", [("""			auto result = daw::exchange( value, std::nullopt );
			return std::move( *result );""","""			auto result = std::move( value );
			return std::move( *result );""")],
 "releasing a resource and then letting the unique_resource end", "the released resource is deleted",
 H+'''static int deleted=0; struct D { void operator()(int &) const { ++deleted; } };
int main(){ { daw::unique_resource<int,D> r( 5 ); CHECK(r.release()==5); } CHECK(deleted==0); return 0; }
''')
seed("c16-run-again", "C16", "include/daw/daw_scope_guard.h", [("""			(void)( *m_function )( );
			cancel( );""","""			cancel( );
			(void)( *m_function )( );""")],
 "running a guard's action early", "the action is run after it was destroyed",
 H+'''struct A { int *n; int volatile step; A(int *p): n(p), step(3) {} A(A const &o): n(o.n), step(o.step) {} ~A() { step=-100; } void operator()() { *n += step; } };
int main(){ int n=0; { A f( &n ); daw::ScopeGuard<A> g( std::as_const( f ) ); g.run_now( ); CHECK(n==3); } CHECK(n==3); return 0; }
''')
