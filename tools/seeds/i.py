H='''#include <cstdio>
#include <stdexcept>
#include <string>
#include <utility>
#include <daw/daw_take.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_validated.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c14-take-self", "C14", "include/daw/daw_take.h", [("""			value = take( rhs.value );
			return *this;""","""			value = std::move( rhs.value );
			rhs.reset( );
			return *this;""")],
 "move assigning a take_t to itself", "the object loses its value",
 H+'''int main(){ daw::take_t<int> a( 5 ); auto &b=a; a = std::move( b ); CHECK(*a==5); daw::take_t<int> c; c=std::move(a); CHECK(*c==5); CHECK(*a==0); return 0; }
''')
seed("c14-validated-order", "C14", "include/daw/daw_validated.h", [("""			m_value = validate( rhs );
			return *this;""","""			m_value = rhs;
			(void)validate( m_value );
			return *this;""")],
 "assigning an invalid lvalue to a validated, catching the exception, and then looking at the value", "the object holds a value that is not valid",
 H+'''struct V { bool operator()(int x) const { return x > 0; } };
int main(){ daw::validated<int,V> a( 5 ); int const bad=-3; bool threw=false; try { a = bad; } catch( std::out_of_range const & ) { threw=true; } CHECK(threw); CHECK(a.get()==5); return 0; }
''')
seed("c14-up-empty", "C14", "include/daw/daw_union_pair.h", [("""				case data_types::type_nothing:
					clear( );
					break;
				default:
					DAW_UNREACHABLE( );
				}
			}
			return *this;
		}

		constexpr union_pair_t &operator=( union_pair_t &&rhs ) noexcept {""","""				case data_types::type_nothing:
					// nothing to copy
					break;
				default:
					DAW_UNREACHABLE( );
				}
			}
			return *this;
		}

		constexpr union_pair_t &operator=( union_pair_t &&rhs ) noexcept {""")],
 "copy assigning an empty union_pair_t to one that has a value", "the old value stays",
 H+'''int main(){ daw::union_pair_t<int,double> a( 5 ), e; a = std::as_const( e ); CHECK(a.which()==e.which()); return 0; }
''')
