P='''#include <bits/stdc++.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c29-view-pop-back", "C29", "include/daw/daw_view.h", [("""			if( n > size( ) ) {
				n = size( );
			}
			auto result = view( std::prev( m_last, n ), m_last );
			remove_suffix( n );
			return result;""","""			auto result = view( std::prev( m_last, n ), m_last );
			remove_suffix( n < size( ) ? n : size( ) );
			return result;""")],
 "popping more elements off the back of a view than it has, with the view in the middle of a buffer", "the returned view starts in front of the view",
 P+'''#include <daw/daw_view.h>
int main(){ int b[]={1,2,3,4,5}; daw::view<int *> v( b+2, b+4 ); auto r=v.pop_back( 3 ); CHECK( v.empty() ); CHECK( r.size()==2 ); CHECK( *r.begin()==3 ); return 0; }
''')
seed("c29-writer-partial", "C29", "include/daw/daw_span_writer.h", [("""			auto const sz = std::ranges::size( r );
			daw_ensure( sz <= self.m_size );
			T *DAW_RESTRICT self_ptr = self.m_first;
			auto *DAW_RESTRICT in_ptr = std::ranges::data( r );
			for( std::size_t n = 0; n < sz; ++n ) {
				self_ptr[n]""","""			auto const sz = std::ranges::size( r );
			T *DAW_RESTRICT self_ptr = self.m_first;
			auto *DAW_RESTRICT in_ptr = std::ranges::data( r );
			for( std::size_t n = 0; n < sz; ++n ) {
				daw_ensure( n < self.m_size );
				self_ptr[n]""")],
 "writing a range that is longer than the room that is left", "the part that fits is written before the write is refused",
 P+'''#include <daw/daw_span_writer.h>
static int b[4]={7,7,7,7};
int main(){ std::set_terminate( []{ bool ok=b[0]==7 and b[1]==7 and b[2]==7 and b[3]==7; std::_Exit( ok?0:1 ); } ); std::span<int> s( b, 3 ); daw::span_writer<int> w( s ); w.write( 7 ); std::array<int,3> v{1,2,3}; w.write( v ); std::printf("not refused\\n"); return 1; }
''')
seed("c29-cv-less", "C29", "include/daw/daw_contiguous_view.h", [("""		[[nodiscard]] friend constexpr bool operator<( contiguous_view const &x,
		                                               contiguous_view const &y ) {
			return std::lexicographical_compare(
			  x.data( ), x.data_end( ), y.data( ), y.data_end( ) );
		}
""",("""		[[nodiscard]] friend constexpr bool operator<( contiguous_view const &x,
		                                               contiguous_view const &y ) {
			auto const sz = (std::min)( x.size( ), y.size( ) );
			auto const d = std::mismatch( x.data( ), x.data( ) + sz, y.data( ) );
			return d.first != x.data( ) + sz and *d.first < *d.second;
		}
""",2))],
 "comparing a view with a longer one that it is a prefix of", "a proper prefix is not less",
 P+'''#include <daw/daw_contiguous_view.h>
int main(){ int b[]={1,2,3}; daw::contiguous_view<int const> x( b, b+2 ), y( b, b+3 ); CHECK( x<y ); CHECK( y>x ); CHECK( not( y<=x ) ); return 0; }
''')
seed("c29-find-not-discard", "C29", "include/daw/daw_contiguous_view.h", [("""			auto pos = find_first_not_of_raw( needle );
			remove_prefix( ( pos - m_first ) + 1 );
			return *this;""",("""			auto pos = find_first_not_of_raw( needle );
			m_first = pos + 1;
			return *this;""",2))],
 "remove_prefix_while with discard on a view whose elements are all the needle", "the view starts behind its end",
 P+'''#include <daw/daw_contiguous_view.h>
int main(){ int b[]={1,1,1,2}; daw::contiguous_view<int const> x( b, b+3 ); x.remove_prefix_while( 1, daw::discard ); CHECK( x.size()==0 ); CHECK( x.empty() ); return 0; }
''')
seed("c30-last-of-ten", "C30", "include/daw/daw_visit.h", [("""					DAW_VISIT_CASE( N, 8 );
					DAW_VISIT_CASE( N, 9 );
				}
			} else""","""				default:
					// the last two alternatives
					return DAW_FWD( vis )( get_nt<N + 8>( DAW_FWD( var ) ) );
				}
			} else""")],
 "a variant of ten alternatives that holds the last one", "the visitor is called with the alternative before the last",
 P+'''#include <daw/daw_visit.h>
template<int I> struct A { int v; };
int main(){ using V=std::variant<A<0>,A<1>,A<2>,A<3>,A<4>,A<5>,A<6>,A<7>,A<8>,A<9>>; V v{ A<9>{5} }; int got=daw::visit( v, []<int I>( A<I> const &a ){ return I*100+(&a==nullptr?0:a.v); } ); CHECK( got==905 ); return 0; }
''')
seed("c30-visit-as-throw", "C30", "include/daw/daw_visit_as.h", [("""			std::invoke( DAW_FWD( visitor ), tmp );
			value = daw::bit_cast<OrigT>( tmp );
		} else {""","""			// write back however the visitor ends
			struct write_back_t {
				OrigT &dest;
				VisitedT const &src;
				~write_back_t( ) {
					dest = daw::bit_cast<OrigT>( src );
				}
			} const write_back{ value, tmp };
			std::invoke( DAW_FWD( visitor ), tmp );
		} else {""")],
 "a visitor without a result that changes its argument and then throws", "a half-done modification is stored",
 P+'''#include <daw/daw_visit_as.h>
struct B { unsigned char c[4]; };
int main(){ unsigned v=5; try { daw::visit_as<B>( v, []( B &b ){ b.c[0]=9; throw 1; } ); } catch(int) {} CHECK( v==5 ); return 0; }
''')
