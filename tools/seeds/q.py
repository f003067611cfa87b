P='''#include <bits/stdc++.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
I="include/daw/iterator/"
seed("c23-reverse-le-strict", "C23", I+"daw_reverse_iterator.h", [("return rhs.base( ) <= lhs.base( );","return rhs.base( ) < lhs.base( );")],
 "<= of two reverse iterators at the same position", "an iterator is not <= itself",
 P+"""#include <daw/iterator/daw_reverse_iterator.h>
int main(){ std::vector<int> v{1,2}; auto a=daw::make_reverse_iterator( v.begin( ) + 1 ); auto b=a; CHECK( a <= b ); ++b; CHECK( a <= b ); CHECK( not( b <= a ) ); return 0; }
""")
seed("c23-count-post-decrement", "C23", I+"daw_counting_iterators.h", [("""			auto result = *this;
			--m_iter;
			--m_distance;
			return result;""","""			auto result = *this;
			--m_iter;
			--result.m_distance;
			return result;""")],
 "it-- of a counting iterator and then distance( )", "the steps of postfix decrements are lost",
 P+"""#include <daw/iterator/daw_counting_iterators.h>
int main(){ std::list<int> v{1,2}; auto a=daw::bidirectional_counting_iterator( v.begin( ) ); ++a; ++a; (void)a--; CHECK( a.distance( )==1 ); return 0; }
""")
seed("c23-view-add-prefix-n", "C23", "include/daw/daw_iter_view.h", [("""			m_size += n;""","""			m_size = n;""")],
 "add_prefix( n ) on a view that is not empty", "the size is the number of added elements",
 P+"""#include <daw/daw_iter_view.h>
int main(){ std::vector<int> v{1,2,3,4}; daw::iter_view<std::vector<int>::iterator> w( v.begin( ) + 2, v.end( ) ); w.add_prefix( 2 ); CHECK( w.size( )==4 ); daw::iter_view<std::vector<int>::iterator> e( v.begin( ) + 2, v.begin( ) + 2 ); e.add_prefix( 1 ); CHECK( e.size( )==1 ); return 0; }
""")
seed("c23-circular-wrap", "C23", I+"daw_circular_iterator.h", [("""			} else if( n >= sz ) {
				return n % sz;""","""			} else if( n > sz ) {
				return n % sz;""")],
 "a circular iterator moved forward exactly to the size", "the position is the end and not the first element",
 P+"""#include <daw/daw_exception.h>
#include <daw/iterator/daw_circular_iterator.h>
int main(){ std::vector<int> v{1,2,3}; auto a=daw::make_circular_iterator( v ); a+=3; CHECK( a==daw::make_circular_iterator( v ) ); CHECK( *a==1 ); return 0; }
""")
seed("c23-arg-end-either", "C23", I+"daw_argument_iterator.h", [("""			if( m_argv == rhs.m_argv ) {
				return m_pos == rhs.m_pos;
			}
			return at_end( ) and rhs.at_end( );""","""			return m_pos == rhs.m_pos or ( at_end( ) and rhs.at_end( ) );""")],
 "the first argument compared with end( )", "the first argument equals the end, whose position is zero too",
 P+"""#include <daw/iterator/daw_argument_iterator.h>
int main(){ char const *v[]{"a","b"}; daw::arg_iterator_t a( 2, v ); CHECK( not( a==a.end( ) ) ); ++a; CHECK( not( a==a.end( ) ) ); ++a; CHECK( a==a.end( ) ); return 0; }
""")
seed("c23-sorted-list-order", "C23", I+"daw_sorted_insert_iterator.h", [("""				auto const pos = std::lower_bound(
				  std::begin( *ptr ), std::end( *ptr ), value, compare );""","""				auto const pos = std::find_if(
				  std::begin( *ptr ), std::end( *ptr ),
				  [&]( auto const &item ) { return not( item < value ); } );""")],
 "a sorted list insert with a comparison other than less", "the values are placed by < in place of the comparison",
 P+"""#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_sorted_insert_iterator.h>
int main(){ std::list<int> v; auto it=daw::make_sorted_insert_iterator( v, std::greater<>{ } ); *it++=1; *it++=3; *it++=2; CHECK( (v==std::list<int>{3,2,1}) ); std::list<int> w; auto jt=daw::make_sorted_insert_iterator( w ); *jt++=2; *jt++=1; CHECK( (w==std::list<int>{1,2}) ); return 0; }
""")
