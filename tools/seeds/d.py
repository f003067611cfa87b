H='''#include <cstdio>
#include <algorithm>
#include <deque>
#include <list>
#include <vector>
#include <daw/daw_sort_n.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_container_algorithm.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
S="include/daw/daw_sort_n.h"
A="include/daw/daw_algorithm.h"
K="include/daw/daw_container_algorithm.h"
seed("c20-incomplete-last", "C20", S, [("						return std::next( i ) == last;","						return std::next( i, 2 ) >= last;")],
 "a range that was already partitioned with exactly eight misplaced elements, the element after the last moved one being misplaced too", "the incomplete insertion sort reports success with one element left",
 H+'''int main(){ unsigned s=1; for(int t=0;t<400000;++t){ s=s*1103515245u+12345u; int n=40+(s>>16)%40; std::vector<int> a; for(int i=0;i<n;++i) a.push_back(i); int k=9; for(int j=0;j<k;++j){ s=s*1103515245u+12345u; int p=(s>>16)%(n-1); std::swap(a[p],a[p+1]); } daw::sort(a.begin(),a.end()); CHECK(std::is_sorted(a.begin(),a.end())); } return 0; }
''')
seed("c21-copy-back", "C21", A, [("""				} else if( not daw::invoke( comp, *i, *result.max_element ) ) {
					result.max_element = i;
				}
				break;""","""				} else if( daw::invoke( comp, *result.max_element, *i ) ) {
					result.max_element = i;
				}
				break;""")],
 "an odd number of elements whose last one is equivalent to the greatest so far", "minmax_element returns the first greatest instead of the last",
 H+'''int main(){ int a[]={1,5,5}; auto r=daw::algorithm::minmax_element(a,a+3); CHECK(r.max_element==a+2); CHECK(r.min_element==a); return 0; }
''')
seed("c21-set-intersection-dup", "C21", A, [("""					*d_first = *first1;
					++d_first;
					++first1;
				}
				++first2;
			}
		}
		return d_first;""","""					*d_first = *first1;
					++d_first;
					++first1;
					if( not( first1 != last1 ) or
					    daw::invoke( comp, *first2, *first1 ) ) {
						++first2;
					}
				} else {
					++first2;
				}
			}
		}
		return d_first;""")],
 "a value occurring more often in the first range than in the second", "the intersection repeats it as often as in the first range",
 H+'''int main(){ int a[]={1,2,2,3}; int b[]={2,3}; std::vector<int> r; daw::algorithm::set_intersection(a,a+4,b,b+2,std::back_inserter(r)); CHECK((r==std::vector<int>{2,3})); return 0; }
''')
seed("c22-copy-if-tail", "C22", K, [("""			if( pred( *src ) ) {
				*destination = *src;
				++destination;
			}
			++src;
		}
		return destination;""","""			// store unconditionally, only keep it when selected
			*destination = *src;
			if( pred( *src ) ) {
				++destination;
			}
			++src;
		}
		return destination;""")],
 "a source whose last elements are not selected", "an element past the end of the output is overwritten",
 H+'''int main(){ std::vector<int> a{2,4,3}; std::vector<int> o(3,9); auto it=daw::container::copy_if(a,o.begin(),[](int v){return v%2==0;}); CHECK(it-o.begin()==2); CHECK(o[2]==9); return 0; }
''')
seed("c22-erase-one", "C22", K, [("""		return container.erase(
		  std::remove_if( std::begin( container ), std::end( container ), pred ),
		  std::end( container ) );""","""		auto const pos =
		  std::remove_if( std::begin( container ), std::end( container ), pred );
		return pos == std::end( container ) ? pos : container.erase( pos );""")],
 "two or more elements matching the predicate", "moved-from elements stay at the end of the container",
 H+'''int main(){ std::deque<int> a{1,2,3,4}; daw::container::erase_remove_if(a,[](int v){return v%2==0;}); CHECK(a.size()==2); return 0; }
''')
