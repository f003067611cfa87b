P='''#include <bits/stdc++.h>
#include <daw/daw_pipelines.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
using namespace daw::pipelines;
'''
seed("c24-sized-decrement", "C24", "include/daw/pipelines/sized_iterator.h", [("""		constexpr void decrement( ) {
			++m_count;
			--m_iter;
		}""","""		constexpr void decrement( ) {
			if( m_count > 0 ) {
				++m_count;
			}
			--m_iter;
		}""")],
 "going back from the end of Take", "the count stays behind the position after stepping back from the end",
 P+"""int main(){ std::vector<int> v{1,2,3,4}; auto r=pipeline( v, Take( 3 ) ); auto it=r.end(); int n=0; while( it != r.begin() and n<10 ) { --it; ++n; } CHECK( n==3 ); return 0; }
""")
seed("c24-kahan-one-branch", "C24", "include/daw/pipelines/numeric.h", [("""					if( daw::cxmath::abs( sum ) >= daw::cxmath::abs( input ) ) {""","""					if( sum >= input ) {""")],
 "a compensated sum where the running sum and the next value have different signs or orders of magnitude", "the lost low bits are taken from the wrong operand for negative values",
 P+"""int main(){ std::vector<double> v{1.0,-1e16,1e16}; CHECK( pipeline( v, SumKahanBabushkaNeumaier )==1.0 ); std::vector<double> w{1e16,1.0,-1e16}; CHECK( pipeline( w, SumKahanBabushkaNeumaier )==1.0 ); return 0; }
""")
seed("c24-drop-while-order", "C24", "include/daw/pipelines/drop.h", [("""			while( f != l and pred( *f ) ) {""","""			while( pred( *f ) and f != l ) {""")],
 "DropWhile where every element satisfies the predicate, or an empty range", "reads the element past the end",
 P+"""int main(){ int buf[4]={1,1,9,9}; int seen=0; std::span<int> s( buf, 2 ); auto r=pipeline( s, DropWhile( [&]( int x ){ if( x==9 ) ++seen; return x==1; } ) ); int n=0; for( int x: r ) { (void)x; ++n; } CHECK( n==0 ); CHECK( seen==0 ); return 0; }
""")
seed("c24-contains-swapped", "C24", "include/daw/pipelines/algorithm.h", [("""					  m_compare, std::invoke( m_projection, *first ), m_needle );""","""					  m_compare, m_needle, std::invoke( m_projection, *first ) );""")],
 "Contains with a comparison that is not symmetric", "the needle and the element swap places",
 P+"""int main(){ std::vector<int> v{5,6}; CHECK( not pipeline( v, Contains( 5, std::less<>{} ) ) ); CHECK( pipeline( v, Contains( 6, std::less<>{} ) ) ); return 0; }
""")
