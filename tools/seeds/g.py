H='''#include <cstdio>
#include <cstddef>
#include <daw/daw_bounded_vector.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
V='include/daw/daw_bounded_vector.h'
seed("c03-move-one", "C03", V, [("return m_first > 0 and m_index >= N - how_many;","return m_first > 1 and m_index >= N - how_many;")],
 "exactly one element popped from the front of a vector that reaches the end of its storage, then a push", "the freed cell is not reused and the push writes past the storage",
 H+'''struct S { daw::bounded_vector_t<int,4> v{}; int guard[4]={77,77,77,77}; };
int main(){ S s; for(int i=0;i<4;++i) s.v.push_back(i); (void)s.v.pop_front(); s.v.push_back(9); for(int g: s.guard) CHECK(g==77); CHECK(s.v.size()==4); CHECK(s.v.back()==9); CHECK(s.v.front()==1); return 0; }
''')
seed("c03-start-before-move", "C03", V, [("""		constexpr void push_back( Ptr const *ptr, size_type sz ) noexcept {
			if( can_move_front( sz ) ) {
				do_move_to_front( );
			}
			auto const start = m_index;
			m_index += sz;""","""		constexpr void push_back( Ptr const *ptr, size_type sz ) noexcept {
			auto const start = size( );
			m_index += sz;
			if( m_first > 0 and m_index > N ) {
				m_index -= sz;
				do_move_to_front( );
				m_index += sz;
			}""")],
 "appending a range of another element type to a vector whose front was popped but that still has room at its end", "the range overwrites elements and leaves stale ones at the end",
 H+'''int main(){ daw::bounded_vector_t<int,8> v{}; for(int i=0;i<4;++i) v.push_back(i); (void)v.pop_front(); short a[2]={50,60}; v.push_back(a,2); int e[5]={1,2,3,50,60}; CHECK(v.size()==5); for(std::size_t i=0;i<5;++i) CHECK(v[i]==e[i]); return 0; }
''')
