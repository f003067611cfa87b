H='''#include <cstdio>
#include <memory>
#include <utility>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c09-maybe-swap", "C09", "include/daw/daw_maybe_unique_ptr.h", [("			swap( m_ptr, other.m_ptr );\n			swap( m_owned, other.m_owned );","			swap( m_ptr, other.m_ptr );\n			if( m_ptr and other.m_ptr ) {\n				swap( m_owned, other.m_owned );\n			}")],
 "swap of a non-owning maybe_unique_ptr with an empty one", "the borrowed object becomes owned and is deleted twice",
 H+'''#include <daw/daw_maybe_unique_ptr.h>
static int dead=0; struct T { ~T(){ ++dead; } };
struct D { void operator()(T*) const noexcept { ++dead; } };
int main(){ T t; { daw::maybe_unique_ptr<T,D> a(&t,false); daw::maybe_unique_ptr<T,D> b; a.swap(b); CHECK(b.get()==&t); CHECK(!a); } CHECK(dead==0); return 0; }
''')
seed("c09-uptr-self-move", "C09", "include/daw/daw_unique_ptr.h", [("""			if( this != &rhs ) {
				reset( );
				m_ptr = rhs.release( );
			}
			return *this;
		}

		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
		                                      std::nullptr_t> = nullptr>
		constexpr unique_ptr &operator=( unique_ptr<U, Deleter> &&rhs ) noexcept {
			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
			               "One cannot destruct U, if T does not have a virtual "
			               "destructor, and U being a child of T" );
			if( this != &rhs ) {
				reset( );
				m_ptr = rhs.release( );
			}
			return *this;
		}

		constexpr unique_ptr( unique_ptr const & ) = delete;
		constexpr unique_ptr &operator=( unique_ptr const & ) = delete;

		DAW_CPP20_CX_ALLOC ~unique_ptr( ) noexcept {
			reset( );
		}

		constexpr pointer release( ) noexcept {
			return daw::exchange(
			  m_ptr, unique_ptr_del::default_pointer_value_v<T, Deleter> );
		}

		constexpr deleter_t &get_deleter( ) {""","""			reset( );
			m_ptr = rhs.release( );
			return *this;
		}

		template<typename U, std::enable_if_t<not std::is_same_v<T, U>,
		                                      std::nullptr_t> = nullptr>
		constexpr unique_ptr &operator=( unique_ptr<U, Deleter> &&rhs ) noexcept {
			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
			               "One cannot destruct U, if T does not have a virtual "
			               "destructor, and U being a child of T" );
			if( this != &rhs ) {
				reset( );
				m_ptr = rhs.release( );
			}
			return *this;
		}

		constexpr unique_ptr( unique_ptr const & ) = delete;
		constexpr unique_ptr &operator=( unique_ptr const & ) = delete;

		DAW_CPP20_CX_ALLOC ~unique_ptr( ) noexcept {
			reset( );
		}

		constexpr pointer release( ) noexcept {
			return daw::exchange(
			  m_ptr, unique_ptr_del::default_pointer_value_v<T, Deleter> );
		}

		constexpr deleter_t &get_deleter( ) {""")],
 "self move assignment of a unique_ptr<T[]>", "the array is destroyed and the pointer lost",
 H+'''#include <daw/daw_unique_ptr.h>
int main(){ auto p = daw::make_unique<int[]>(3); p[1]=7; auto *raw=p.get(); auto &q=p; p = std::move(q); CHECK(p.get()==raw); CHECK(p[1]==7); return 0; }
''')
R="include/daw/daw_ref_counted_pointer.h"
seed("c10-arr-swap-empty", "C10", R, [("""			m_ref_count = daw::exchange( other.m_ref_count, m_ref_count );
		}

		DAW_CX_DTOR ~rc_ptr( ) noexcept( is_t_nothrow_destructible ) {
			reset( );
		}

		explicit constexpr rc_ptr( pointer ptr ) noexcept
		  : m_pointer( ptr ) {
			if( not ptr ) {
				return;
			}
			m_ref_count = new std::size_t{ 1 };
		}

		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}

		constexpr void reset( ) noexcept( is_t_nothrow_destructible ) {
			if( not m_pointer ) {
				assert( not m_ref_count );
""","""			if( m_ref_count != nullptr and other.m_ref_count != nullptr ) {
				m_ref_count = daw::exchange( other.m_ref_count, m_ref_count );
			} else if( m_ref_count == nullptr ) {
				m_ref_count = daw::exchange( other.m_ref_count, nullptr );
			}
		}

		DAW_CX_DTOR ~rc_ptr( ) noexcept( is_t_nothrow_destructible ) {
			reset( );
		}

		explicit constexpr rc_ptr( pointer ptr ) noexcept
		  : m_pointer( ptr ) {
			if( not ptr ) {
				return;
			}
			m_ref_count = new std::size_t{ 1 };
		}

		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}

		constexpr void reset( ) noexcept( is_t_nothrow_destructible ) {
			if( not m_pointer ) {
""")],
 "swapping a non-empty rc_ptr<T[]> (left) with an empty one (right)", "pointer and use count end up in different handles",
 H+'''#include <daw/daw_ref_counted_pointer.h>
static int dead=0; struct T { ~T(){ ++dead; } };
#undef assert
int main(){ { daw::rc_ptr<T[]> b; { daw::rc_ptr<T[]> a( new T[2] ); a.swap(b); CHECK(!a); CHECK(b); b = daw::rc_ptr<T[]>( ); } CHECK(dead==2); } CHECK(dead==2); return 0; }
''')
seed("c10-move-alias", "C10", R, [("""		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
			if( this != &rhs ) {
				reset( );
				m_pointer = daw::exchange( rhs.m_pointer, nullptr );
				m_ref_count = daw::exchange( rhs.m_ref_count, nullptr );
			}
			return *this;
		}

		constexpr void swap( rc_ptr &other ) {
			m_pointer = daw::exchange( other.m_pointer, std::move( m_pointer ) );
			m_ref_count = daw::exchange( other.m_ref_count, m_ref_count );
		}

		DAW_CX_DTOR ~rc_ptr( ) noexcept( is_t_nothrow_destructible ) {
			reset( );
		}

		explicit constexpr rc_ptr( pointer ptr ) noexcept
		  : m_pointer( ptr ) {
			if( not ptr ) {
				return;
			}
			m_ref_count = new std::size_t{ 1 };
		}

		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}

		constexpr void reset( ) noexcept( is_t_nothrow_destructible ) {
			if( not m_pointer ) {
				return;
			}""","""		operator=( rc_ptr &&rhs ) noexcept( is_t_nothrow_destructible ) {
			if( m_pointer != rhs.m_pointer ) {
				reset( );
				m_pointer = rhs.m_pointer;
				m_ref_count = rhs.m_ref_count;
			}
			rhs.m_pointer = nullptr;
			rhs.m_ref_count = nullptr;
			return *this;
		}

		constexpr void swap( rc_ptr &other ) {
			m_pointer = daw::exchange( other.m_pointer, std::move( m_pointer ) );
			m_ref_count = daw::exchange( other.m_ref_count, m_ref_count );
		}

		DAW_CX_DTOR ~rc_ptr( ) noexcept( is_t_nothrow_destructible ) {
			reset( );
		}

		explicit constexpr rc_ptr( pointer ptr ) noexcept
		  : m_pointer( ptr ) {
			if( not ptr ) {
				return;
			}
			m_ref_count = new std::size_t{ 1 };
		}

		explicit DAW_CONSTEVAL rc_ptr( std::nullptr_t ) noexcept {}

		constexpr void reset( ) noexcept( is_t_nothrow_destructible ) {
			if( not m_pointer ) {
				return;
			}""")],
 "move assignment between two handles that share the object", "the use count stays one too high, so the object is never destroyed",
 H+'''#include <daw/daw_ref_counted_pointer.h>
static int dead=0; struct T { int x=0; ~T(){ ++dead; } };
int main(){ { auto a = daw::make_rc_ptr<T>( ); auto b = a; b = std::move(a); CHECK(b.ref_count()==1); } CHECK(dead==1); return 0; }
''')
