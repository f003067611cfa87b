H='''#include <cstdio>
#include <string>
#include <daw/daw_hash_set.h>
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
static std::size_t hv=0;
struct Bad { std::size_t operator()(int) const { return hv; } };
'''
M='include/daw/deprecated/daw_bounded_hash_map.h'
V='include/daw/daw_hash_set.h'
seed("c05-map-wrap", "C05", M, [("""			for( size_type n = 0; n < scaled_hash; ++n ) {
				if( not m_data[n] or key_equal{ }( m_data[n].kv.key, key ) ) {
					return n;
				}
			}
			return { };""","""			// wrap around, remembering the first free slot
			size_type free_slot = N + 1;
			for( size_type n = 0; n < scaled_hash; ++n ) {
				if( not m_data[n] ) {
					free_slot = n;
				} else if( key_equal{ }( m_data[n].kv.key, key ) ) {
					return n;
				}
			}
			if( free_slot <= N ) {
				return free_slot;
			}
			return { };""")],
 "a probe run that wraps around the end of the table and two or more free slots before the hashed position, later filled", "a key is placed past free slots, so a later insertion or erasure makes it unreachable or duplicates it",
 H+'''int main(){ 
 for(hv=0;hv<1000;++hv){ daw::bounded_hash_map<int,int,8,Bad> m; for(int i=0;i<8;++i){ m.insert(int(i),int(i)); CHECK(m.size()==(std::size_t)(i+1)); for(int j=0;j<=i;++j) CHECK(m.exists(j)); }
 for(int i=0;i<8;i+=2) m.erase(i); for(int i=1;i<8;i+=2) CHECK(m.exists(i)); for(int i=1;i<8;i+=2) m.insert(int(i),int(9)); CHECK(m.size()==4);
 for(int i=0;i<8;++i) CHECK(m.exists(i)==(i%2==1)); } return 0; }
''')
seed("c05-vset-wrap", "C05", V, [("""			for( std::size_t n = 0; n < scaled_hash; ++n ) {""","""			for( std::size_t n = 0; n + 1 < scaled_hash; ++n ) {""")],
 "a full table in which the last key sits directly before its hashed slot", "the last free slot of a wrapped probe run is never used",
 H+'''int main(){ for(std::size_t sh=0;sh<64;++sh) for(std::size_t k=0;k<9;++k) { hv=k<<sh; daw::hash_set_t<int,Bad> s(5); try { for(int i=0;i<5;++i) s.insert(i); } catch(...) { std::puts("failed"); return 1; } for(int i=0;i<5;++i) CHECK(s.exists(i)); } return 0; }
''')
