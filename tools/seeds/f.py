H='''#include <cstdio>
#include <string>
#include <cstddef>
#include <utility>
#include <daw/deprecated/daw_ordered_map.h>
#include <daw/deprecated/daw_fixed_lookup.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
O='include/daw/deprecated/daw_ordered_map.h'
F='include/daw/deprecated/daw_fixed_lookup.h'
seed("c06-stale-insert", "C06", O, [("""				pos = m_values.insert(
				  pos, daw::construct_a<value_type>( DAW_FWD( value ) ) );
				return { pos, true };""","""				m_values.insert(
				  pos, daw::construct_a<value_type>( DAW_FWD( value ) ) );
				return { pos, true };""")],
 "an insertion from a convertible pair that makes the storage grow", "the returned iterator refers to the storage before it was reallocated",
 H+'''int main(){ daw::ordered_map<int,int> m; for(int i=0;i<40;++i){ auto r=m.insert(std::pair<int,int>(i,i)); CHECK(r.second); CHECK(r.first==m.begin()+i); } return 0; }
''')
seed("c06-wrap-last", "C06", F, [("""			for( hash_value_t n = 0; n != hash_pos; ++n ) {
				if( m_hashes[n] == hash ) {
					return lookup_result_t{ n, true };
				} else if( m_hashes[n] == impl::fixed_lookup_sentinals::empty ) {
					return lookup_result_t{ n, false };
				}
			}""","""			// positions before the scaled hash, nearest to the end first
			for( hash_value_t n = hash_pos; n != 0; --n ) {
				if( m_hashes[n - 1] == hash ) {
					return lookup_result_t{ n - 1, true };
				} else if( m_hashes[n - 1] == impl::fixed_lookup_sentinals::empty ) {
					return lookup_result_t{ n - 1, false };
				}
			}
			if( hash_pos + 1 == m_hashes.size( ) ) {
				return lookup_result_t{ 0, false };
			}""")],
 "a full table whose last slot is the home of a key that is not present", "the table does not refuse a further key but overwrites another one",
 H+'''int main(){ for(int base=0;base<300;++base){ daw::fixed_lookup<int,4> f{}; for(int i=0;i<4;++i) f.insert(base+i,i); CHECK(f.size()==4); bool threw=false; try { f.insert(base+100000,9); } catch(...) { threw=true; } CHECK(threw); for(int i=0;i<4;++i){ CHECK(f.exists(base+i)); CHECK(f[base+i]==i); } } return 0; }
''')
