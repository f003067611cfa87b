H='''#include <cstdio>
#include <cstddef>
#include <array>
#include <cstdint>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_bit_queues.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
R='include/daw/daw_ring_adaptor.h'
B='include/daw/daw_bit_queues.h'
seed("c04-const-wrap", "C04", R, [("""		inline constexpr const_reference operator[]( std::size_t idx ) const {
			assert( idx < size( ) );
			return m_queue[get_idx( m_head + idx )];""","""		inline constexpr const_reference operator[]( std::size_t idx ) const {
			assert( idx < size( ) );
			auto pos = get_idx( m_head ) + idx;
			if( pos > capacity( ) ) {
				pos -= capacity( );
			}
			return m_queue[pos];""")],
 "reading, through a constant ring, the element that was stored in the first cell after a wraparound", "reads the cell past the end of the container",
 H+'''int main(){ daw::ring_adaptor<std::array<int,4>> r; for(int i=0;i<4;++i) r.push_back(100+i); (void)r.pop_front(); r.push_back(104); auto const &c=r; for(int i=0;i<4;++i) CHECK(c[(std::size_t)i]==101+i); return 0; }
''')
seed("c04-wide-mask", "C04", B, [("""			value &= mask_msb<value_type>(
			  bit_count_v<value_type> -
			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );""","""			// whole bytes need no mask
			if( bits % 8U != 0 ) {
				value &= mask_msb<value_type>( bit_count_v<value_type> - bits );
			}""")],
 "pushing a whole number of bytes, fewer than the value type has, of a value whose higher bytes are not zero", "the higher bytes of the value overwrite bits that were already in the queue",
 H+'''int main(){ daw::basic_bit_queue<std::uint32_t,std::uint16_t> q{}; q.push_back(0,8); q.push_back(0xABCD,8); CHECK(q.value()==0xCD); CHECK(q.size()==16); return 0; }
''')
