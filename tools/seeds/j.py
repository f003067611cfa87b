H='''#include <cstdio>
#include <functional>
#include <string>
#include <utility>
#include <daw/daw_function_ref.h>
#include <daw/daw_bind_args_at.h>
#include <daw/daw_stack_function.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c15-ref-thunk", "C15", "include/daw/daw_function_ref.h", [("""			m_data = static_cast<void const *>( std::addressof( func ) );
			m_thunk = obj_thunk<Func>;
			return *this;
		}

		constexpr function_ref( Result ( *ptr )( Params... ) ) noexcept""","""			m_data = static_cast<void const *>( std::addressof( func ) );
			if( not m_thunk ) {
				m_thunk = obj_thunk<Func>;
			}
			return *this;
		}

		constexpr function_ref( Result ( *ptr )( Params... ) ) noexcept""")],
 "assigning a callable object of another type to a function_ref that refers to a callable object", "the old target's code runs with the new target's data",
 H+'''struct A { int k; int operator()(int x) const { return k+x; } }; struct B { int k; int operator()(int x) const { return k*x; } };
int main(){ A a{10}; B b{10}; daw::function_ref<int(int)> f( a ); CHECK(f(3)==13); f = b; CHECK(f(3)==30); return 0; }
''')
seed("c15-bind-move", "C15", "include/daw/daw_bind_args_at.h", [("""			static_assert( N <= sizeof...( Args ) );
			return std::apply(
			  func, std::tuple_cat(
			          split_args<0, N>( std::forward_as_tuple( DAW_FWD( args )... ) ),
			          tp_args,""","""			static_assert( N <= sizeof...( Args ) );
			return std::apply(
			  func, std::tuple_cat(
			          split_args<0, N>( std::forward_as_tuple( DAW_FWD( args )... ) ),
			          std::move( tp_args ),""")],
 "calling a non constant bind_args_at object twice, with a bound value that is changed by moving from it", "the second call gets a value that was moved from",
 H+'''int main(){ auto f = daw::bind_args_at<1>( []( std::string a, std::string b ) { return a + b; }, std::string( "a string that is much too long to be stored inside" ) ); auto x = f( std::string( "1" ) ); auto y = f( std::string( "1" ) ); CHECK(x==y); return 0; }
''')
seed("c15-fn-leak", "C15", "include/daw/daw_stack_function.h", [("""			if constexpr( func_impl::has_empty_member_v<Func> ) {
				if( f.empty( ) ) {
					return { empty_child( ) };
				}
			} else if""","""			if constexpr( func_impl::has_empty_member_v<Func> ) {
				if( f.empty( ) ) {
					return { empty_child( ) };
				}
			} else if constexpr( std::is_pointer_v<daw::remove_cvref_t<Func>> ) {
				// a function pointer is never empty
			} else if"""),("""				} else if constexpr( func_impl::is_boolable_v<F> ) {
					return not static_cast<bool>( f );""","""				} else if constexpr( std::is_class_v<daw::remove_cvref_t<F>> and
				                     func_impl::is_boolable_v<F> ) {
					return not static_cast<bool>( f );""")],
 "binding a null function pointer to a daw::function", "the wrapper claims to have a target, and a call jumps to address zero",
 H+'''int main(){ int (*p)(int) = nullptr; daw::function<64,int(int)> f( p ); CHECK(f.empty()); bool threw=false; try { (void)f( 1 ); } catch( std::bad_function_call const & ) { threw=true; } CHECK(threw); return 0; }
''')
