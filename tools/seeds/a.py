V="include/daw/vector.h"
H='''#include <daw/vector.h>
#include <cstdio>
#include <string>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c01-insert-alias", "C01", V, [("if( p <= xr && xr < m_end ) {\n						DAW_UNSAFE", "if( p < xr && xr < m_end ) {\n						DAW_UNSAFE")],
 "insert(pos, x) with spare capacity where x is the very element at pos", "the inserted element is the moved-from shifted slot instead of the aliased value",
 H+'''int main(){ daw::vector<std::string> v; v.reserve(8); for(char c: {'a','b','c'}) v.push_back(std::string(40,c));
 v.insert(v.begin()+1, v[1]);
 CHECK(v.size()==4); CHECK(v[1]==std::string(40,'b')); CHECK(v[2]==std::string(40,'b')); CHECK(v[3]==std::string(40,'c')); return 0; }
''')
seed("c01-insert-n-alias", "C01", V, [("xr += old_n;","xr += n;")],
 "insert(pos, n, x) with spare capacity, n larger than the tail, x aliasing an element at or after pos", "wrong element is replicated because the alias is advanced by the remaining instead of the full count",
 H+'''int main(){ daw::vector<int> v; v.reserve(16); for(int i=1;i<=4;++i) v.push_back(i);
 v.insert(v.begin()+2, 3, v[3]);
 int e[]={1,2,4,4,4,3,4}; CHECK(v.size()==7); for(int i=0;i<7;++i) CHECK(v[i]==e[i]); return 0; }
''')
seed("c02-move-range", "C02", V, [("				     ++i, (void)++pos, tx.pos = pos ) {\n					alloc_traits::construct( alloc( ), std::to_address( pos ),\n					                         std::move( *i ) );\n				}","				     ++i, (void)++pos ) {\n					alloc_traits::construct( alloc( ), std::to_address( pos ),\n					                         std::move( *i ) );\n				}\n				tx.pos = tx.pos + ( from_e - ( from_s + n ) );")],
 "insert into the middle with spare capacity of several elements whose move constructor throws on the second or later tail element", "elements already moved into the tail are forgotten (never destroyed) when a later move throws",
 H+'''static int live=0, fuse=-1; struct T{ int v; T(int x):v(x){++live;} T(T const&o):v(o.v){++live;} T(T&&o):v(o.v){ if(fuse>=0 && fuse--==0) throw 1; ++live;} T&operator=(T const&o){v=o.v;return *this;} T&operator=(T&&o){v=o.v;return *this;} ~T(){--live;} };
int main(){ { daw::vector<T> v; v.reserve(16); for(int i=0;i<6;++i) v.emplace_back(i); T a[]={T(7),T(8),T(9)};
 fuse=1; try { v.insert(v.begin()+1, a, a+3); } catch(int){} fuse=-1; }
 std::printf("live %d\\n", live); CHECK(live==0); return 0; }
''')
seed("c02-assign-alloc", "C02", V, [("			vdeallocate( );\n			move_assign_alloc( c ); // this can throw\n			m_begin = c.m_begin;","			if( capacity( ) < c.size( ) ) {\n				vdeallocate( );\n			} else {\n				clear( );\n			}\n			move_assign_alloc( c ); // this can throw\n			m_begin = c.m_begin;")],
 "move assignment into a vector whose capacity already covers the source's size", "the destination's old block is never released",
 '''#include <cstddef>
#include <cstdlib>
#include <new>
static long blocks=0;
void *operator new(std::size_t n){ ++blocks; return std::malloc(n?n:1);} void operator delete(void*p) noexcept { if(p){--blocks; std::free(p);} } void operator delete(void*p,std::size_t) noexcept { if(p){--blocks; std::free(p);} }
'''+H+'''int main(){ long b=blocks; { daw::vector<int> a; a.reserve(32); a.push_back(1); daw::vector<int> c; c.push_back(2); a = std::move(c); CHECK(a.size()==1 && a[0]==2); } CHECK(blocks==b); return 0; }
''')
S="include/daw/daw_string_view.h"
HS='''#include <daw/daw_string_view.h>
#include <cstdio>
#include <string>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
seed("c17-high-bit-set", "C17", S, [("r.set( static_cast<unsigned char>( needle_first[n] ) );","r.set( static_cast<unsigned char>( needle_first[n] ) & 0x7FU );")],
 "find_first_of on 8-bit text with a needle containing characters above 127", "such characters are never found (and ASCII counterparts are found wrongly)",
 HS+'''int main(){ char const t[]="ab\\xC3\\xA9z"; daw::string_view sv(t,5); CHECK(sv.find_first_of(daw::string_view("\\xC3\\xA9",2))==2); CHECK(daw::string_view("C)").find_first_of(daw::string_view("\\xC3",1))==daw::string_view::npos); return 0; }
''')
seed("c17-rfind-zero", "C17", S, [("} while( pos-- > 0 );","} while( --pos > 0 );")],
 "rfind of a needle whose only occurrence starts at position 0", "the occurrence at the very front is not found",
 HS+'''int main(){ std::string s="abcdef"; daw::string_view sv=s; CHECK(sv.rfind("cd")==2); CHECK(sv.rfind("ab")==0); return 0; }
''')
seed("c18-resize-zt", "C18", S, [("					m_last = new_size;\n","					m_last -= size( ) - new_size;\n")],
 "trimming or resizing a zero terminated view and then asking for a C string", "the shortened view still claims to be zero terminated, so the removed suffix comes back",
 HS+'''int main(){ daw::string_view sv="value   "; sv.trim(); CHECK(sv=="value"); CHECK(std::string(sv.get_c_str().c_str())=="value"); return 0; }
''')
seed("c18-is-space-vt", "C18", S, [("					                    c == CharT( '\\v' ),\n","")],
 "text padded with vertical tabs", "trim leaves vertical tabs in place",
 HS+'''int main(){ daw::string_view sv="\\v x \\v"; sv.trim(); CHECK(sv=="x"); return 0; }
''')
