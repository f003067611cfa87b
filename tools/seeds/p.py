P='''#include <bits/stdc++.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_static_bitset.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
H="include/daw/daw_static_bitset.h"
seed("c25-and-tail-kept", "C25", H, [("""			for( ; n < m_data.size( ); ++n ) {
				m_data[n] = 0U;
			}
			return *this;""","""			for( ; n < rhs.m_data.size( ) and n < m_data.size( ); ++n ) {
				m_data[n] = 0U;
			}
			return *this;""")],
 "&= with a right side that has fewer words", "the words past the end of the right side keep their ones",
 P+"""int main(){ daw::static_bitset<150> a; a.set_bit( 140 ); daw::static_bitset<33> b; a &= b; CHECK( not a.get_bit( 140 ) ); return 0; }
""")
seed("c25-string-word-carry", "C25", H, [("""				m_data[cur_idx] = tmp;
				++cur_idx;""","""				m_data[m_element_capacity - 1U - cur_idx] = tmp;
				++cur_idx;""")],
 "a string construction of a set of more than one word", "the words are in the reverse order",
 P+"""int main(){ daw::static_bitset<150> a( daw::string_view( "101" ) ); CHECK( a.get_bit( 0 ) ); CHECK( a.get_bit( 2 ) ); CHECK( a.one_count()==2 ); daw::static_bitset<33> b( daw::string_view( "101" ) ); CHECK( b.get_bit( 2 ) ); return 0; }
""")
seed("c25-not-equal-tail", "C25", H, [("""				if( 0U != rhs.m_data[n] ) {
					return true;
				}
			}
			return false;""","""				if( 0U != rhs.m_data[n] ) {
					return n + 1U != rhs.m_data.size( );
				}
			}
			return false;""")],
 "!= with a right side that has more words and ones only in its last word", "sets that differ are reported as not different",
 P+"""int main(){ daw::static_bitset<150> a; a.set_bit( 140 ); daw::static_bitset<33> b; CHECK( b != a ); CHECK( a != b ); CHECK( not( a == b ) ); return 0; }
""")
seed("c25-hex-zero-word", "C25", H, [("""				if( !value ) {
					pos -= sizeof( value_t ) * 2U;""","""				if( !value ) {
					pos -= sizeof( value_t );""")],
 "to_string in hex where a low word is zero and a higher one is not", "the digits of the higher words are shifted by eight places",
 P+"""int main(){ daw::static_bitset<128> a; a.set_bit( 64 ); CHECK( a.to_string( daw::fmt_hex )=="00000000000000010000000000000000" ); a.set_bit( 0 ); CHECK( a.to_string( daw::fmt_hex )=="00000000000000010000000000000001" ); return 0; }
""")
seed("c25-positions-toggle", "C25", "include/daw/daw_bitset_helper.h", [("""				result.set( static_cast<std::size_t>( position ) );
			}
			return result;""","""				result.flip( static_cast<std::size_t>( position ) );
			}
			return result;""")],
 "a range of positions where one position is repeated", "the repeated position is cleared again",
 P+"""int main(){ std::vector<int> v{3,3}; CHECK( daw::create_bitset_from_set_positions<8>( v ).test( 3 ) ); return 0; }
""")
