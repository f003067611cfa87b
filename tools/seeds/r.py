P='''#include <bits/stdc++.h>
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\\n", #x); return 1; } } while(0)
'''
I="include/daw/"
seed("c19-splitter-one", "C19", I+"daw_parse_to.h", [("return result_t{ pos, pos + m_delemiter.size( ) };","return result_t{ pos, pos + 1 };")],
 "a delimiter of more than one character", "the rest of the delimiter belongs to the next field",
 P+"""#include <daw/daw_parse_to.h>
int main(){ auto t=daw::parser::parse_to<daw::parser::converters::unquoted_string,daw::parser::converters::unquoted_string>( "a, b", ", " ); CHECK( std::get<0>( t )=="a" ); CHECK( std::get<1>( t )=="b" ); return 0; }
""")
seed("c19-digits-extra", "C19", I+"daw_parser_addons.h", [("		auto count = std::numeric_limits<Result>::digits10;","		auto count = std::numeric_limits<Result>::digits10 + 1;")],
 "a number of as many digits as the greatest value but above it", "it wraps instead of being refused",
 P+"""#include <daw/daw_parser_addons.h>
int main(){ std::string s="256"; try { auto v=daw::parser::parse_unsigned_int<std::uint8_t>( s.data( ), s.data( )+s.size( ) ); std::printf( "%d\\n", v ); return 1; } catch( std::out_of_range const & ) {} std::string t="99"; CHECK( daw::parser::parse_unsigned_int<std::uint8_t>( t.data( ), t.data( )+2 )==99 ); return 0; }
""")
seed("c19-merge-same-blank", "C19", I+"daw_parse_to.h", [("""				while( n < sz and is_unicode_whitespace( str[n] ) ) {""","""				while( n < sz and str[n] == str[f] ) {""")],
 "different blanks in a row", "they are not merged into one delimiter",
 P+"""#include <daw/daw_parse_to.h>
int main(){ auto t=daw::parser::parse_to<daw::parser::converters::unquoted_string,int>( "a \\t  7", daw::parser::whitespace_splitter{ } ); CHECK( std::get<0>( t )=="a" ); CHECK( std::get<1>( t )==7 ); return 0; }
""")
seed("c19-arg-half-quote", "C19", I+"daw_parse_args.h", [("""			if( args.starts_with( '"' ) and args.ends_with( '"' ) ) {""","""			if( args.starts_with( '"' ) ) {""")],
 "a value with an opening quote only", "its last character is lost",
 P+"""#include <algorithm>
#include <daw/daw_parse_args.h>
int main(){ char a0[]="p", a1[]="--x=\\"ab"; char *v[]{a0,a1,nullptr}; daw::Arguments a( 2, v ); CHECK( a.size( )==1 ); CHECK( a[0].value=="\\"ab" ); return 0; }
""")
seed("c19-last-of-second", "C19", I+"daw_parser_helper.h", [("""		while( result and result.end( ) != last ) {
			auto tmp""","""		if( result and result.end( ) != last ) {
			auto tmp""")],
 "until_last_of with three occurrences", "the second one is returned",
 P+"""#include <daw/daw_parser_helper.h>
int main(){ std::string s="a/b/c/d"; auto r=daw::parser::until_last_of( s.begin( ), s.end( ), '/' ); CHECK( r.found ); CHECK( r.last-s.begin( )==5 ); return 0; }
""")
seed("c19-starts-with-longer", "C19", I+"daw_parser_helper.h", [("		return first2 == last2; // end of second item","		return first1 == last1 or first2 == last2; // end of either item")],
 "a prefix that is longer than the text", "the text starts with it",
 P+"""#include <daw/daw_parser_helper.h>
int main(){ std::string s="ab", t="abc"; auto eq=[]( char a, char b ){ return a==b; }; CHECK( not daw::parser::starts_with( s.begin( ), s.end( ), t.begin( ), t.end( ), eq ) ); CHECK( daw::parser::starts_with( t.begin( ), t.end( ), s.begin( ), s.end( ), eq ) ); return 0; }
""")
seed("c19-from-string-range", "C19", I+"daw_from_string.h", [("			if(fs_r.ec == std::errc( )) {","			if(fs_r.ptr != str.data( )) {")],
 "a number that does not fit the type", "it is zero instead of nothing",
 P+"""#include <daw/daw_from_string.h>
int main(){ CHECK( not daw::from_string( daw::tag<std::int8_t>, "128" ) ); CHECK( daw::from_string( daw::tag<std::int8_t>, "-128" )==std::int8_t{-128} ); return 0; }
""")
