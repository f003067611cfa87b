From 000843ef7e710e3c9681fedd207153f6cf4134c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:16 +0000
Subject: [PATCH 001/260] fix: vector::swap could not be instantiated
 (unqualified swap_allocator)

---
 include/daw/vector.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3b44ae6..bdf608e 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -927,9 +927,10 @@ namespace daw {
 			std::swap( m_begin, other.m_begin );
 			std::swap( m_end, other.m_end );
 			std::swap( endcap( ), other.endcap( ) );
-			swap_allocator( alloc( ), other.alloc( ),
-			                std::bool_constant<
-			                  alloc_traits::propagate_on_container_swap::value>{ } );
+			si_impl::swap_allocator(
+			  alloc( ), other.alloc( ),
+			  std::bool_constant<
+			    alloc_traits::propagate_on_container_swap::value>{ } );
 		}
 
 	private:
-- 
2.43.0


From 8e00a883ff066210ce93cae8e985323f1658247d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:01 +0000
Subject: [PATCH 002/260] fix: vector insert/emplace could not be instantiated
 (missing std:: qualifiers and temp_value)

---
 include/daw/split_buffer.h | 22 +++++++++++-----------
 include/daw/vector.h       |  5 ++---
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/include/daw/split_buffer.h b/include/daw/split_buffer.h
index bde5282..513174d 100644
--- a/include/daw/split_buffer.h
+++ b/include/daw/split_buffer.h
@@ -158,7 +158,7 @@ namespace daw {
 			end_ = c.end_;
 			end_cap( ) = c.end_cap( );
 			move_assign_alloc(
-			  c, bool_constant<
+			  c, std::bool_constant<
 			       alloc_traits::propagate_on_container_move_assignment::value>{ } );
 			c.first_ = nullptr;
 			c.begin_ = nullptr;
@@ -226,8 +226,8 @@ namespace daw {
 		constexpr void reserve( size_type n ) {
 			if( n < capacity( ) ) {
 				auto t = split_buffer<value_type, alloc_rr &>( n, 0, alloc( ) );
-				t.construct_at_end( move_iterator<pointer>( begin_ ),
-				                    move_iterator<pointer>( end_ ) );
+				t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+				                    std::move_iterator<pointer>( end_ ) );
 				std::swap( first_, t.first_ );
 				std::swap( begin_, t.begin_ );
 				std::swap( end_, t.end_ );
@@ -263,7 +263,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -287,7 +287,7 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
 					                    std::move_iterator<pointer>( end_ ) );
@@ -310,7 +310,7 @@ namespace daw {
 					end_ += d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t =
 					  split_buffer<value_type, alloc_rr &>( c, ( c + 3 ) / 4, alloc( ) );
 					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
@@ -335,10 +335,10 @@ namespace daw {
 					begin_ -= d;
 				} else {
 					size_type c =
-					  max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
+					  std::max<size_type>( 2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
@@ -362,8 +362,8 @@ namespace daw {
 					size_type c = std::max<size_type>(
 					  2 * static_cast<size_t>( end_cap( ) - first_ ), 1 );
 					auto t = split_buffer<value_type, alloc_rr &>( c, c / 4, alloc( ) );
-					t.construct_at_end( move_iterator<pointer>( begin_ ),
-					                    move_iterator<pointer>( end_ ) );
+					t.construct_at_end( std::move_iterator<pointer>( begin_ ),
+					                    std::move_iterator<pointer>( end_ ) );
 					std::swap( first_, t.first_ );
 					std::swap( begin_, t.begin_ );
 					std::swap( end_, t.end_ );
diff --git a/include/daw/vector.h b/include/daw/vector.h
index bdf608e..3f9b7fa 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -664,10 +664,9 @@ namespace daw {
 				if( p == m_end ) {
 					construct_one_at_end( DAW_FWD( args )... );
 				} else {
-					auto tmp =
-					  temp_value<value_type, Allocator>( alloc( ), DAW_FWD( args )... );
+					auto tmp = value_type( DAW_FWD( args )... );
 					move_range( p, m_end, p + 1 );
-					*p = std::move( tmp.get( ) );
+					*p = std::move( tmp );
 				}
 			} else {
 				allocator_type &a = alloc( );
-- 
2.43.0


From c8f901cae8f132bfbac124e2033ef427c3bbf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:10 +0000
Subject: [PATCH 003/260] fix: vector copy assignment deallocated a null block
 when allocators propagate and differ

---
 include/daw/vector.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 3f9b7fa..ae30e59 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1224,9 +1224,7 @@ namespace daw {
 
 		constexpr void copy_assign_alloc( vector const &c, std::true_type ) {
 			if( alloc( ) != c.alloc( ) ) {
-				clear( );
-				alloc_traits::deallocate( alloc( ), m_begin, capacity( ) );
-				m_begin = m_end = endcap( ) = nullptr;
+				vdeallocate( );
 			}
 			alloc( ) = c.alloc( );
 		}
-- 
2.43.0


From ad2c9f0c0ffa7749318d6ce304584d9c657c8e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 004/260] fix: vector::resize_and_overwrite ran off the block
 when the operation produced fewer than n elements

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index ae30e59..025684f 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -841,7 +841,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
@@ -868,7 +868,7 @@ namespace daw {
 			}( );
 			assert( new_size <= n );
 			auto new_end = m_begin + static_cast<difference_type>( new_size );
-			if( new_size < n ) {
+			if( new_end < m_end ) {
 				destruct_at_end( new_end );
 			}
 			m_end = new_end;
-- 
2.43.0


From ef3e557cb66ef5c7740b048ed99b37dd163665a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 005/260] fix: block_append_from never consumed its input and
 grew the vector forever

---
 include/daw/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 025684f..518adf1 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1316,11 +1316,11 @@ namespace daw {
 			v.resize_and_overwrite( cur_size + block_size,
 			                        [&]( T *ptr, std::size_t sz ) {
 				                        ptr += cur_size;
-				                        cur_size += block_size;
 				                        while( cur_size < sz and first != last ) {
-					                        *ptr = *first;
+					                        std::construct_at( ptr, *first );
 					                        ++ptr;
 					                        ++first;
+					                        ++cur_size;
 				                        }
 				                        return cur_size;
 			                        } );
-- 
2.43.0


From 2e55c5c68ba5492c27db7f4525340135e376250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:17 +0000
Subject: [PATCH 006/260] fix: vector constructors leaked storage and elements
 when an element constructor threw

---
 include/daw/vector.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index 518adf1..bfa1302 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -142,7 +142,8 @@ namespace daw {
 		  noexcept( std::is_nothrow_copy_constructible<allocator_type>::value )
 		  : m_endcap_( nullptr, a ) {}
 
-		explicit constexpr vector( size_type n ) {
+		explicit constexpr vector( size_type n )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -151,14 +152,15 @@ namespace daw {
 		}
 
 		explicit constexpr vector( size_type n, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n > 0 ) {
 				vallocate( n );
 				construct_at_end( n );
 			}
 		}
 
-		explicit constexpr vector( size_type n, value_type const &x ) {
+		explicit constexpr vector( size_type n, value_type const &x )
+		  : vector( ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -168,7 +170,7 @@ namespace daw {
 
 		explicit constexpr vector( size_type n, value_type const &x,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( n > 0 ) {
 				vallocate( n );
@@ -177,7 +179,8 @@ namespace daw {
 		}
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
-		                           auto operation ) {
+		                           auto operation )
+		  : vector( ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -186,7 +189,7 @@ namespace daw {
 
 		explicit constexpr vector( do_resize_and_overwrite_t, size_type n,
 		                           auto operation, allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			if( n == 0 ) {
 				return;
 			}
@@ -196,7 +199,8 @@ namespace daw {
 		template<input_iterator InputIterator>
 		requires( constructible_from<value_type,
 		                             iter_reference_type<InputIterator>> ) //
-		  explicit constexpr vector( InputIterator first, InputIterator last ) {
+		  explicit constexpr vector( InputIterator first, InputIterator last )
+		  : vector( ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -210,7 +214,7 @@ namespace daw {
 		                             iter_reference_type<InputIterator>> ) //
 		  explicit constexpr vector( InputIterator first, InputIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			DAW_UNSAFE_BUFFER_FUNC_START
 			for( ; first != last; ++first ) {
@@ -223,7 +227,8 @@ namespace daw {
 		requires( not has_slow_distance_v<ForwardIterator> and
 		          constructible_from<value_type,
 		                             iter_reference_type<ForwardIterator>> ) //
-		  explicit constexpr vector( ForwardIterator first, ForwardIterator last ) {
+		  explicit constexpr vector( ForwardIterator first, ForwardIterator last )
+		  : vector( ) {
 
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
@@ -238,7 +243,7 @@ namespace daw {
 		                             iter_reference_type<ForwardIterator>> ) //
 		  explicit constexpr vector( ForwardIterator first, ForwardIterator last,
 		                             allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 			auto const n = static_cast<size_type>( std::distance( first, last ) );
 			if( n > 0 ) {
 				vallocate( n );
@@ -254,8 +259,8 @@ namespace daw {
 		}
 
 		constexpr vector( vector const &x )
-		  : m_endcap_( nullptr, alloc_traits::select_on_container_copy_construction(
-		                          x.alloc( ) ) ) {
+		  : vector( alloc_traits::select_on_container_copy_construction(
+		      x.alloc( ) ) ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -266,7 +271,7 @@ namespace daw {
 
 		explicit constexpr vector( vector const &x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			size_type const n = x.size( );
 			if( n > 0 ) {
@@ -285,7 +290,7 @@ namespace daw {
 
 		explicit constexpr vector( std::initializer_list<value_type> il,
 		                           allocator_type const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( il.size( ) > 0 ) {
 				vallocate( il.size( ) );
@@ -305,7 +310,7 @@ namespace daw {
 
 		explicit constexpr vector( vector &&x,
 		                           std::type_identity_t<allocator_type> const &a )
-		  : m_endcap_( nullptr, a ) {
+		  : vector( a ) {
 
 			if( a == x.alloc( ) ) {
 				m_begin = x.m_begin;
-- 
2.43.0


From 1ad41731a8cf67ab8134f54af519dc5cbf181c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:16 +0000
Subject: [PATCH 007/260] fix: vector::append(n) and append(n, x) now give the
 documented strong guarantee when capacity suffices

---
 include/daw/vector.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/daw/vector.h b/include/daw/vector.h
index bfa1302..485d966 100644
--- a/include/daw/vector.h
+++ b/include/daw/vector.h
@@ -1014,7 +1014,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				auto const old_size = static_cast<difference_type>( size( ) );
+				try {
+#endif
+					construct_at_end( n );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( m_begin + old_size );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
@@ -1031,7 +1041,17 @@ namespace daw {
 		/// @post size() == size() + n
 		constexpr void append( size_type n, const_reference x ) {
 			if( static_cast<size_type>( endcap( ) - m_end ) >= n ) {
-				construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				auto const old_size = static_cast<difference_type>( size( ) );
+				try {
+#endif
+					construct_at_end( n, x );
+#if defined( DAW_USE_EXCEPTIONS )
+				} catch( ... ) {
+					destruct_at_end( m_begin + old_size );
+					throw;
+				}
+#endif
 			} else {
 				allocator_type &a = alloc( );
 				auto v = split_buffer<value_type, allocator_type &>(
-- 
2.43.0


From 2e2a840f92ade4500369ca416b9b0100c696557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:08 +0000
Subject: [PATCH 008/260] fix: string_view pop_back_until(CharT, nodiscard),
 remove_prefix_until(pred, nodiscard) and trim_suffix_copy could not be
 instantiated

---
 include/daw/daw_string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 36be0f1..c1624ea 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1381,7 +1381,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
-				auto result = substr( pos + where.size( ) );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1771,7 +1771,7 @@ namespace daw {
 			DAW_ATTRIB_INLINE
 			  constexpr basic_string_view &remove_prefix_until( UnaryPredicate pred,
 			                                                    nodiscard_t ) {
-				auto pos = find_if( pred );
+				auto pos = find_first_of_if( pred );
 				dec_front( (std::min)( { size( ), pos } ) );
 				return *this;
 			}
@@ -2770,7 +2770,7 @@ namespace daw {
 			[[nodiscard]] constexpr basic_string_view
 			trim_suffix_copy( ) const noexcept DAW_LIFETIME_BOUND {
 				auto result = *this;
-				result = remove_suffix_while( is_space{ } );
+				result.remove_suffix_while( is_space{ } );
 				return result;
 			}
 
-- 
2.43.0


From 22bcc2ba2b40861cf51cc84323d068b5ba6aeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:08 +0000
Subject: [PATCH 009/260] fix: string_view::find(CharT, pos) returned a
 position relative to pos or skipped characters, and scanned char16_t text
 with wmemchr

---
 include/daw/daw_string_view.h | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index c1624ea..d295e0a 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1994,29 +1994,23 @@ namespace daw {
 			                                        size_type pos = 0 ) const {
 
 				assert( pos <= size( ) );
-				auto first = data( ) + pos;
-				auto const sz = static_cast<std::size_t>( data_end( ) - first );
+				auto const sz = size( );
+				if( pos >= sz ) {
+					return npos;
+				}
+				auto const first = data( );
 #if defined( DAW_HAS_IF_CONSTEVAL_COMPAT )
 				DAW_IF_NOT_CONSTEVAL {
 					if constexpr( sizeof( CharT ) == 1 ) {
-						void const *r = std::memchr(
-						  static_cast<void const *>( first ), static_cast<char>( c ), sz );
+						void const *r =
+						  std::memchr( static_cast<void const *>( first + pos ),
+						               static_cast<unsigned char>( c ),
+						               sz - pos );
 						if( r == nullptr ) {
 							return npos;
 						}
 						return static_cast<std::size_t>( static_cast<CharT const *>( r ) -
 						                                 first );
-					} else if constexpr( sizeof( CharT ) == 2 ) {
-						wchar_t const *r =
-						  ::wmemchr( const_cast<wchar_t *>(
-						               reinterpret_cast<wchar_t const *>( first ) ),
-						             static_cast<wchar_t>( c ),
-						             sz );
-						if( r == nullptr ) {
-							return npos;
-						}
-						return static_cast<std::size_t>(
-						  reinterpret_cast<CharT const *>( r ) - first );
 					} else {
 						for( std::size_t n = pos; n < sz; ++n ) {
 							if( first[n] == c ) {
-- 
2.43.0


From a69d78afed8615428696bcd63511e7c15af17d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 010/260] fix: string_view::find and find_first_match read past
 the text when pos > size( ), and contains(s, pos, count) returned the
 position as bool

---
 include/daw/daw_string_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index d295e0a..1587e44 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2047,7 +2047,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type find( basic_string_view v,
 			                                        size_type pos = 0 ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
@@ -2078,7 +2078,7 @@ namespace daw {
 			/// @brief Test if the string_view contains the supplied pattern
 			[[nodiscard]] constexpr bool contains( const_pointer s, size_type pos,
 			                                       size_type count ) const {
-				return find( basic_string_view<CharT>( s, count ), pos );
+				return find( basic_string_view<CharT>( s, count ), pos ) != npos;
 			}
 
 			/// @brief Test if the string_view contains the supplied pattern
@@ -2094,7 +2094,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type
 			find_first_match( basic_string_view v, size_type pos ) const {
-				if( size( ) < v.size( ) ) {
+				if( pos > size( ) or size( ) - pos < v.size( ) ) {
 					return npos;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From ce4c880a012a0d34d4521d2948f405db65ee9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 011/260] fix: string_view::find_first_match compared the
 second and later needles with the wrong characters and gave up when one
 needle reached the end

---
 include/daw/daw_string_view.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 1587e44..6f017c8 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -360,21 +360,18 @@ namespace daw {
 			[[nodiscard]] constexpr CharT const *
 			search( basic_string_view<CharT> haystack,
 			        std::initializer_list<basic_string_view<CharT>> needles ) {
-				auto const last = daw::data_end( haystack );
 				for( ; not haystack.empty( ); haystack.remove_prefix( ) ) {
-					auto it = haystack.data( );
-
 					for( auto needle : needles ) {
-						if( needle.size( ) > haystack.size( ) ) {}
+						if( needle.size( ) > haystack.size( ) ) {
+							continue;
+						}
+						auto it = haystack.data( );
 						auto s_first = std::data( needle );
 						auto const s_last = daw::data_end( needle );
 						for( auto s_it = s_first;; ++it, ++s_it ) {
 							if( s_it == s_last ) {
 								return haystack.data( );
 							}
-							if( it == last ) {
-								return last;
-							}
 							if( not( *it == *s_it ) ) {
 								break;
 							}
-- 
2.43.0


From 730119511618370af3c8a06e3159f4512b51926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 012/260] fix: string_view::search missed a match at the end of
 the text and search_last returned the first match, or pos when there is none

---
 include/daw/daw_string_view.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 6f017c8..66c727b 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2201,7 +2201,7 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search( basic_string_view v,
 			                                          size_type pos = 0 ) const {
-				if( ( pos + v.size( ) ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) or pos > size( ) or v.size( ) > size( ) - pos ) {
 					return npos;
 				}
 				auto const iter = sv2_details::search(
@@ -2222,17 +2222,14 @@ namespace daw {
 
 			[[nodiscard]] constexpr size_type search_last( basic_string_view v,
 			                                               size_type pos = 0 ) const {
-				if( pos + v.size( ) >= size( ) or v.empty( ) ) {
+				if( v.empty( ) ) {
 					return npos;
 				}
-				auto last_pos = pos;
+				auto last_pos = npos;
 				auto fpos = search( v, pos );
 				while( fpos != npos ) {
 					last_pos = fpos;
-					fpos = search( v, fpos );
-					if( fpos == last_pos ) {
-						break;
-					}
+					fpos = search( v, fpos + 1 );
 				}
 				return last_pos;
 			}
-- 
2.43.0


From 0968feb378ac3a755a430f9a26364ca43fd07b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 013/260] fix: string_view::find_last_of on wide text returned
 a bogus position when nothing matched and find_last_not_of read one past the
 text when pos == size( )

---
 include/daw/daw_string_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 66c727b..8c52e54 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -2324,7 +2324,8 @@ namespace daw {
 				} else {
 					auto iter = daw::algorithm::find_first_of(
 					  haystack.rbegin( ), haystack.rend( ), s.rbegin( ), s.rend( ) );
-					return iter == rend( ) ? npos : reverse_distance( rbegin( ), iter );
+					return iter == haystack.rend( ) ? npos
+					                                : reverse_distance( rbegin( ), iter );
 				}
 			}
 
@@ -2445,7 +2446,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				for( auto n = static_cast<difference_type>( pos ); n >= 0; --n ) {
@@ -2469,7 +2470,7 @@ namespace daw {
 				if( empty( ) ) {
 					return npos;
 				}
-				if( pos > size( ) ) {
+				if( pos >= size( ) ) {
 					pos = size( ) - 1;
 				}
 				if( v.empty( ) ) {
-- 
2.43.0


From 9a8c011922dbff6b03b345f747d6b9914774f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 014/260] fix: string_view pop_front_unsafe(count),
 try_pop_front_until(pred) and the nodiscard pop_back_until family did not
 partition the text

---
 include/daw/daw_string_view.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 8c52e54..0ef030f 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1159,7 +1159,7 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  size( ) >= count,
 				  "Attempt to pop front too many elements basic_string_view" );
-				basic_string_view result = substr_unsafe( 0 );
+				basic_string_view result = substr_unsafe( 0, count );
 				remove_prefix_unsafe( count );
 				return result;
 			}
@@ -1362,7 +1362,7 @@ namespace daw {
 					return result;
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1463,6 +1463,7 @@ namespace daw {
 					remove_prefix( npos );
 					return result;
 				}
+				pos += sv2_details::find_predicate_result_size( pred );
 				auto result = substr( pos );
 				remove_suffix( size( ) - pos );
 				return result;
@@ -1576,7 +1577,11 @@ namespace daw {
 			DAW_REQ_UNARY_PRED_REQ( UnaryPredicate, CharT )
 			[[nodiscard]] constexpr basic_string_view
 			  try_pop_front_until( UnaryPredicate pred ) DAW_LIFETIME_BOUND {
-				auto result = try_pop_front_until( pred, nodiscard );
+				auto pos = find_first_of_if( pred );
+				if( pos == npos ) {
+					return basic_string_view<CharT>( );
+				}
+				auto result = pop_front( pos );
 				remove_prefix( sv2_details::find_predicate_result_size( pred ) );
 				return result;
 			}
@@ -1611,7 +1616,7 @@ namespace daw {
 					return basic_string_view<CharT>( );
 				}
 				auto result = substr( pos + where.size( ) );
-				remove_suffix( size( ) - pos );
+				remove_suffix( size( ) - ( pos + where.size( ) ) );
 				return result;
 			}
 
@@ -1626,7 +1631,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos ) - 1 );
 				return result;
 			}
@@ -1642,7 +1647,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1665,7 +1670,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( size( ) - pos );
 				return result;
 			}
@@ -1688,7 +1693,7 @@ namespace daw {
 				if( pos == npos ) {
 					return basic_string_view<CharT>( );
 				}
-				auto result = substr( pos );
+				auto result = substr( pos + 1 );
 				remove_suffix( ( size( ) - pos - 1 ) );
 				return result;
 			}
-- 
2.43.0


From deb0953c61b444d87834a3fa645ab1949b1e1807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:30 +0000
Subject: [PATCH 015/260] fix: string_view::substr_unsafe claimed zero
 termination for views that are not zero terminated

---
 include/daw/daw_string_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_string_view.h b/include/daw/daw_string_view.h
index 0ef030f..a90394d 100644
--- a/include/daw/daw_string_view.h
+++ b/include/daw/daw_string_view.h
@@ -1842,7 +1842,8 @@ namespace daw {
 				DAW_STRING_VIEW_DBG_RNG_CHECK(
 				  pos + count <= size( ),
 				  "Attempt to access basic_string_view past end" );
-				if( pos + count == size( ) ) {
+				if( pos + count == size( ) and
+				    is_zero_terminated( ) == ZeroTerminated::Yes ) {
 					return basic_string_view(
 					  m_first + pos, m_first + pos + count, zero_terminated );
 				} else {
-- 
2.43.0


From 298d4cf87e02ae15ce40c8e7a23cf1ec04d1b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:54 +0000
Subject: [PATCH 016/260] fix: value_ptr could not be copy assigned or released
 and dereferenced null when copying or assigning to an empty value_ptr

---
 include/daw/daw_value_ptr.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_value_ptr.h b/include/daw/daw_value_ptr.h
index 5dde242..37e8534 100644
--- a/include/daw/daw_value_ptr.h
+++ b/include/daw/daw_value_ptr.h
@@ -78,7 +78,9 @@ namespace daw {
 		  : enable_default_constructor<T>( other )
 		  , enable_copy_constructor<T>( other )
 		  , enable_copy_assignment<T>( other )
-		  , m_value( std::make_unique<value_type>( *other.m_value ) ) {}
+		  , m_value( other.m_value
+		               ? std::make_unique<value_type>( *other.m_value )
+		               : nullptr ) {}
 
 		constexpr value_ptr( value_ptr &&other ) noexcept
 		  : enable_default_constructor<T>( std::move( other ) )
@@ -88,7 +90,7 @@ namespace daw {
 
 		constexpr value_ptr &operator=( value_ptr const &rhs ) noexcept(
 		  std::is_nothrow_copy_constructible_v<value_type> ) {
-			if( this != rhs ) {
+			if( this != &rhs ) {
 				if( !m_value and !rhs.m_value ) {
 					return *this;
 				}
@@ -122,7 +124,11 @@ namespace daw {
 
 		value_ptr &operator=( value_type &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<value_type> ) {
-			*m_value = std::move( rhs );
+			if( !m_value ) {
+				m_value = std::make_unique<value_type>( std::move( rhs ) );
+			} else {
+				*m_value = std::move( rhs );
+			}
 			return *this;
 		}
 
@@ -144,7 +150,7 @@ namespace daw {
 		  default;
 
 		constexpr pointer release( ) noexcept {
-			return daw::exchange( m_value, nullptr );
+			return m_value.release( );
 		}
 
 		constexpr void swap( value_ptr &rhs ) noexcept {
-- 
2.43.0


From 5645d29b7f3b408188ed8a0b84398a1a1c7c7e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 017/260] fix: unique_ptr operator<= was the negation of
 operator<

---
 include/daw/daw_unique_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_ptr.h b/include/daw/daw_unique_ptr.h
index 8cef944..ea9e72c 100644
--- a/include/daw/daw_unique_ptr.h
+++ b/include/daw/daw_unique_ptr.h
@@ -460,7 +460,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( unique_ptr<T, D0> const &lhs,
 	                           unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From cc24a3ee39f40455837554ae290452df8ca45c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 018/260] fix: maybe_unique_ptr forgot on moves whether it
 owned its pointee, reset( p ) left a dangling pointer and operator<= was the
 negation of operator<

---
 include/daw/daw_maybe_unique_ptr.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_maybe_unique_ptr.h b/include/daw/daw_maybe_unique_ptr.h
index a42ff11..51c7f7a 100644
--- a/include/daw/daw_maybe_unique_ptr.h
+++ b/include/daw/daw_maybe_unique_ptr.h
@@ -72,14 +72,14 @@ namespace daw {
 		constexpr maybe_unique_ptr( std::nullptr_t ) noexcept {}
 
 		constexpr maybe_unique_ptr( maybe_unique_ptr &&other ) noexcept
-		  : m_ptr( other.release( ) )
+		  : m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {}
 
 		template<typename U, typename D>
 		requires( not std::is_same_v<T, U> ) //
 		  constexpr maybe_unique_ptr( maybe_unique_ptr<U, D> &&other ) noexcept
 		  : Deleter( static_cast<D &&>( other ) )
-		  , m_ptr( other.release( ) )
+		  , m_ptr( other.m_ptr.release( ) )
 		  , m_owned( std::exchange( other.m_owned, true ) ) {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
@@ -99,7 +99,7 @@ namespace daw {
 		constexpr maybe_unique_ptr &operator=( maybe_unique_ptr &&rhs ) noexcept {
 			if( this != &rhs ) {
 				reset( );
-				m_ptr = rhs.release( );
+				m_ptr = rhs.m_ptr.release( );
 				m_owned = std::exchange( rhs.m_owned, true );
 			}
 			return *this;
@@ -112,6 +112,7 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs.m_ptr );
 			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
@@ -123,8 +124,8 @@ namespace daw {
 			static_assert( unique_ptr_details::is_safe_child_type_v<T, U>,
 			               "One cannot destruct U, if T does not have a virtual "
 			               "destructor, and U being a child of T" );
+			reset( );
 			m_ptr = std::move( rhs );
-			m_owned = std::exchange( rhs.m_owned, true );
 			return *this;
 		}
 
@@ -166,11 +167,7 @@ namespace daw {
 		}
 
 		constexpr void reset( pointer p, bool owned = true ) noexcept {
-			if( m_owned ) {
-				m_ptr.reset( std::move( p ) );
-			} else {
-				(void)m_ptr.release( );
-			}
+			reset( );
 			m_ptr.reset( std::move( p ) );
 			m_owned = owned;
 		}
@@ -295,7 +292,7 @@ namespace daw {
 	template<typename T, typename D0, typename D1 = D0>
 	constexpr bool operator<=( maybe_unique_ptr<T, D0> const &lhs,
 	                           maybe_unique_ptr<T, D1> const &rhs ) noexcept {
-		return not( lhs < rhs );
+		return not( rhs < lhs );
 	}
 
 	template<typename T, typename D0, typename D1 = D0>
-- 
2.43.0


From 32fe17c7a00af3eec2373062ad0258ba7bc53426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 019/260] fix: unique_array at( ) threw for the valid positions
 only

---
 include/daw/daw_unique_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_unique_array.h b/include/daw/daw_unique_array.h
index 0da7402..7a7ee99 100644
--- a/include/daw/daw_unique_array.h
+++ b/include/daw/daw_unique_array.h
@@ -114,13 +114,13 @@ namespace daw {
 
 		reference at( size_type pos ) {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
 		const_reference at( size_type pos ) const {
 			daw::exception::daw_throw_on_false<std::out_of_range>(
-			  pos >= m_size, "Attempt to access value past end of range" );
+			  pos < m_size, "Attempt to access value past end of range" );
 			return m_data[pos];
 		}
 
-- 
2.43.0


From 5f15e758d7111302bba43c6468524ce46435012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:19 +0000
Subject: [PATCH 020/260] fix: rc_ptr reset( ) kept a pointer it no longer
 counted for

---
 include/daw/daw_ref_counted_pointer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/daw/daw_ref_counted_pointer.h b/include/daw/daw_ref_counted_pointer.h
index e9dd2bc..cd73995 100644
--- a/include/daw/daw_ref_counted_pointer.h
+++ b/include/daw/daw_ref_counted_pointer.h
@@ -141,6 +141,9 @@ namespace daw {
 				auto old_ref = daw::exchange( m_ref_count, nullptr );
 				delete old_ref;
 				Deleter{ }( old_ptr );
+			} else {
+				m_pointer = nullptr;
+				m_ref_count = nullptr;
 			}
 		}
 
@@ -314,6 +317,9 @@ namespace daw {
 				auto *old_ref = daw::exchange( m_ref_count, nullptr );
 				delete old_ref;
 				Deleter{ }( old_ptr );
+			} else {
+				m_pointer = nullptr;
+				m_ref_count = nullptr;
 			}
 		}
 
-- 
2.43.0


From 9c0c1d1cf7286c992606a64324edf0938ddc74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 021/260] fix: graph nodes compared equal whenever they
 belonged to the same graph

---
 include/daw/daw_graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_graph.h b/include/daw/daw_graph.h
index 49bd0ae..3103b7c 100644
--- a/include/daw/daw_graph.h
+++ b/include/daw/daw_graph.h
@@ -212,7 +212,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
@@ -311,7 +311,7 @@ namespace daw {
 		constexpr bool operator==( Rhs const &rhs ) noexcept {
 			static_assert( is_graph_node_v<Rhs>,
 			               "Can only do comparison with another graph node proxy" );
-			return m_node_id == rhs.id( ) or
+			return m_node_id == rhs.id( ) and
 			       std::equal_to<>{ }( m_graph, rhs.graph( ) );
 		}
 
-- 
2.43.0


From 2886864b154e78c8083023034639d37451f4e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 022/260] fix: ordered graph walks sorted the children with a
 comparison that is not a strict weak ordering

---
 include/daw/daw_graph_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 07f5d56..482122c 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -97,8 +97,8 @@ namespace daw {
 					auto child_nodes = graph_alg_impl::get_child_nodes( graph, node );
 					if constexpr( perform_sort_v ) {
 						std::sort( std::begin( child_nodes ), std::end( child_nodes ),
-						           [&]( auto &&...args ) {
-							           return not comp( DAW_FWD( args )... );
+						           [&]( auto const &lhs, auto const &rhs ) {
+							           return comp( rhs, lhs );
 						           } );
 					}
 					for( auto child : child_nodes ) {
@@ -182,8 +182,8 @@ namespace daw {
 
 					std::sort( children.begin( ), children.end( ),
 					           [&]( daw::node_id_t left_id, daw::node_id_t right_id ) {
-						           return not ord( graph.get_node( left_id ).value( ),
-						                           graph.get_node( right_id ).value( ) );
+						           return ord( graph.get_node( right_id ).value( ),
+						                       graph.get_node( left_id ).value( ) );
 					           } );
 					path.reserve( path.size( ) + children.size( ) );
 					std::copy( children.begin( ), children.end( ),
-- 
2.43.0


From 913876e2df00c763b2766efc3c008f37440da535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 023/260] fix: dfs_walk visited a node once for every path
 entry instead of once

---
 include/daw/daw_graph_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 482122c..150acd8 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -163,8 +163,10 @@ namespace daw {
 			while( not path.empty( ) ) {
 				auto current_node = graph.get_node( path.back( ) );
 				path.pop_back( );
+				if( not visited.insert( current_node.id( ) ).second ) {
+					continue;
+				}
 				func( current_node );
-				visited.insert( current_node.id( ) );
 				if constexpr( std::is_same_v<ChildOrder, UnorderedWalk> ) {
 					std::copy_if( std::begin( current_node.outgoing_edges( ) ),
 					              std::end( current_node.outgoing_edges( ) ),
-- 
2.43.0


From aa95d296a426e9e714181bc86e65190067da4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:39 +0000
Subject: [PATCH 024/260] fix: topological ranges started their reverse
 iteration before the first node and the const end( ) did not compile

---
 include/daw/daw_graph_algorithm.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_graph_algorithm.h b/include/daw/daw_graph_algorithm.h
index 150acd8..1dfa01c 100644
--- a/include/daw/daw_graph_algorithm.h
+++ b/include/daw/daw_graph_algorithm.h
@@ -307,7 +307,7 @@ namespace daw {
 
 		[[nodiscard]] topological_sorted_iterator end( ) const {
 			auto result = *this;
-			result.m_iterator = result.end( );
+			result.m_iterator = m_nodes->end( );
 			return result;
 		}
 
@@ -427,7 +427,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rbegin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t end( ) const {
@@ -435,7 +435,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> rend( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
@@ -467,7 +467,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> begin( ) const {
-				return std::reverse_iterator<iterator_t>( first );
+				return std::reverse_iterator<iterator_t>( last );
 			}
 
 			[[nodiscard]] iterator_t rend( ) const {
@@ -475,7 +475,7 @@ namespace daw {
 			}
 
 			[[nodiscard]] std::reverse_iterator<iterator_t> end( ) const {
-				return std::reverse_iterator<iterator_t>( last );
+				return std::reverse_iterator<iterator_t>( first );
 			}
 
 			[[nodiscard]] size_t size( ) const noexcept {
-- 
2.43.0


From 497b166809ee077f923e7ef16a8d853c7880d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 025/260] fix: sort_to of integers wrote nothing but its first
 element when sorting in descending order and indexed its digit counts with
 negative numbers

---
 include/daw/daw_sort_n.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sort_n.h b/include/daw/daw_sort_n.h
index 9ef2158..59f8372 100644
--- a/include/daw/daw_sort_n.h
+++ b/include/daw/daw_sort_n.h
@@ -754,10 +754,14 @@ namespace daw {
 			bool const is_ascend =
 			  comp( static_cast<value_t>( 0 ), static_cast<value_t>( 1 ) );
 
+			auto const digit = []( value_t const &v ) {
+				// the remainder of a negative value is not positive
+				return static_cast<std::size_t>( ( v % 10 + 10 ) % 10 );
+			};
 			std::array<std::size_t, 10> counts{ };
 			size_t d = 0;
 			for( auto it = first_in; it != last_in; ++it ) {
-				++counts[static_cast<std::size_t>( ( *it ) % 10 )];
+				++counts[digit( *it )];
 				++d;
 			}
 			daw::algorithm::partial_sum( std::cbegin( counts ), std::cend( counts ),
@@ -765,19 +769,17 @@ namespace daw {
 
 			if( is_ascend ) {
 				while( first_in != last_in ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
+					auto const pos = digit( *first_in );
 					first_out[counts[pos] - 1U] = *first_in;
 					--counts[pos];
 					++first_in;
 				}
 			} else {
-				auto rf = daw::make_reverse_iterator( first_out + d );
-				auto const rl = daw::make_reverse_iterator( first_out );
-				while( rf != rl ) {
-					auto const pos = static_cast<std::size_t>( *first_in % 10 );
-					rf[counts[pos] - 1U] = *first_in;
+				while( first_in != last_in ) {
+					auto const pos = digit( *first_in );
+					first_out[d - counts[pos]] = *first_in;
 					--counts[pos];
-					++rf;
+					++first_in;
 				}
 			}
 			return first_out + d;
-- 
2.43.0


From d20741a76fb3808201ba55c1247983109150f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 026/260] fix: are_equal ignored its third argument

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 81526c5..a1bef0e 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -491,7 +491,7 @@ namespace daw::algorithm {
 
 	template<typename ValueType, typename... Values>
 	constexpr bool are_equal( ValueType v1, ValueType v2, Values... others ) {
-		return are_equal( v1, v2 ) and are_equal( others... );
+		return are_equal( v1, v2 ) and are_equal( v2, others... );
 	}
 
 	template<typename ForwardIterator, typename Predicate>
-- 
2.43.0


From 43397b8960dbe596ce5f2cc6af5010d621e9754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 027/260] fix: gather could not be instantiated

---
 include/daw/daw_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a1bef0e..face1b9 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -509,7 +509,7 @@ namespace daw::algorithm {
 
 		auto finish = std::stable_partition( target, last, predicate );
 
-		return std::make_pair( start, finish );
+		return { start, finish };
 	}
 
 	template<typename T>
-- 
2.43.0


From 41b45982d5f3bf9754f83f5fd99b058fe57b326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 028/260] fix: split dropped the piece after the last separator

---
 include/daw/daw_algorithm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index face1b9..9011a7a 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -590,6 +590,7 @@ namespace daw::algorithm {
 				temp.push_back( *it );
 			}
 		}
+		result.push_back( std::move( temp ) );
 		return result;
 	}
 
-- 
2.43.0


From bb558b49d705085c29b90ddcf821285e72e39bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 029/260] fix: transform_n could not be used with an operation
 taking the index

---
 include/daw/daw_algorithm.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 9011a7a..d18ae29 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1000,6 +1000,19 @@ namespace daw::algorithm {
 		return first_out;
 	}
 
+	namespace algorithm_details {
+		template<typename Output, typename Operation, typename Value>
+		constexpr bool is_nothrow_transform( ) noexcept {
+			if constexpr( std::is_invocable_v<Operation, Value> ) {
+				return std::is_nothrow_invocable_v<Operation, Value> and
+				       std::is_nothrow_assignable_v<
+				         Output, std::invoke_result_t<Operation, Value>>;
+			} else {
+				return false;
+			}
+		}
+	} // namespace algorithm_details
+
 	/// @brief Run the transform function unary_op on n elements of range
 	/// started by first
 	/// @tparam InputIterator input range iterator type
@@ -1017,8 +1030,11 @@ namespace daw::algorithm {
 	         typename UnaryOperation>
 	constexpr auto transform_n(
 	  InputIterator first, OutputIterator first_out, size_t count,
-	  UnaryOperation unary_op ) noexcept( noexcept( *first_out =
-	                                                  unary_op( *first ) ) ) {
+	  UnaryOperation
+	    unary_op ) noexcept( algorithm_details::
+	                           is_nothrow_transform<decltype( *first_out ),
+	                                                UnaryOperation,
+	                                                decltype( *first )>( ) ) {
 
 		traits::is_input_iterator_test<InputIterator>( );
 		static_assert(
@@ -1028,10 +1044,9 @@ namespace daw::algorithm {
 		  "dereferenced type of first or with an addditional argument of "
 		  "size_t" );
 
-		traits::is_output_iterator_test<OutputIterator,
-		                                decltype( unary_op( *first ) )>( );
-
 		if constexpr( std::is_invocable_v<UnaryOperation, decltype( *first )> ) {
+			traits::is_output_iterator_test<OutputIterator,
+			                                decltype( unary_op( *first ) )>( );
 			while( count-- > 0 ) {
 				*first_out = unary_op( *first );
 				++first;
@@ -1039,7 +1054,7 @@ namespace daw::algorithm {
 			}
 		} else {
 			for( size_t n = 0U; n < count; ++n, ++first, ++first_out ) {
-				*first_out = *unary_op( *first, n );
+				*first_out = unary_op( *first, n );
 			}
 		}
 		struct result_t {
-- 
2.43.0


From ced8c644e2f907456eb18152144ecf595c400cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 030/260] fix: find_unsorted moved past the end of an empty
 range

---
 include/daw/daw_algorithm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index d18ae29..e10fa33 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2005,6 +2005,9 @@ namespace daw::algorithm {
 	template<typename RandomIterator, typename Compare = std::less<>>
 	RandomIterator find_unsorted( RandomIterator first, RandomIterator last,
 	                              Compare comp = Compare{ } ) {
+		if( first == last ) {
+			return last;
+		}
 		auto second = std::next( first );
 		auto second_last = std::prev( last );
 
-- 
2.43.0


From 388d6818fac5b829b0a4e1ece4ac7795bf961c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 031/260] fix: convert_copy could not be called and
 convert_copy_n did not return

---
 include/daw/daw_algorithm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index e10fa33..a8c5531 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -2144,13 +2144,14 @@ namespace daw::algorithm {
 
 	template<typename T, typename Iterator, typename IteratorLast,
 	         typename OutputIterator>
-	constexpr OutputIterator convert_copy( Iterator first, Iterator last,
+	constexpr OutputIterator convert_copy( Iterator first, IteratorLast last,
 	                                       OutputIterator out_first ) {
 		while( first != last ) {
 			*out_first = static_cast<T>( *first );
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 
 	template<typename T, typename Iterator, typename OutputIterator>
@@ -2162,6 +2163,7 @@ namespace daw::algorithm {
 			++out_first;
 			++first;
 		}
+		return out_first;
 	}
 } // namespace daw::algorithm
 
-- 
2.43.0


From 0a9bcf0de8307b8d37904f50fb7fd075701be831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 032/260] fix: safe_advance, safe_next and safe_prev could not
 be used with non random access iterators and safe_prev had no default
 distance

---
 include/daw/daw_algorithm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index a8c5531..fb0e8b2 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -88,7 +88,7 @@ namespace daw {
 		template<typename Iterator, typename Iterator2, typename Iterator3,
 		         typename Distance,
 		         daw::enable_when_t<
-		           not traits::is_random_access_iterator<Iterator>> = nullptr>
+		           not traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -103,7 +103,7 @@ namespace daw {
 		template<
 		  typename Iterator, typename Iterator2, typename Iterator3,
 		  typename Distance,
-		  daw::enable_when_t<traits::is_random_access_iterator<Iterator>> = nullptr>
+		  daw::enable_when_t<traits::is_random_access_iterator_v<Iterator>> = nullptr>
 		constexpr void safe_advance_impl( Iterator2 const first, Iterator &it,
 		                                  Iterator3 const last,
 		                                  Distance dist ) noexcept {
@@ -196,7 +196,7 @@ namespace daw {
 	/// @param first boundary for it
 	/// @param n number of steps to advance backwards
 	/// @return The resulting iterator advanced n steps
-	template<typename Iterator, typename Distance>
+	template<typename Iterator, typename Distance = size_t>
 	constexpr Iterator
 	safe_prev( Iterator it, Iterator first, Distance n = 1 ) noexcept(
 	  noexcept( daw::prev( it, static_cast<std::ptrdiff_t>( n ) ) ) ) {
-- 
2.43.0


From efc79f3560c2c93514a87a982d07c3591c635039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:50 +0000
Subject: [PATCH 033/260] fix: extract_matching kept using the iterator it had
 extracted

---
 include/daw/daw_algorithm.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index fb0e8b2..2c678e1 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -1926,11 +1926,11 @@ namespace daw::algorithm {
 		auto it = std::begin( from );
 		while( it != std::end( from ) ) {
 			if( daw::invoke( pred, *it ) ) {
-				// Iterator is invalidated inside extract_to,
-				// incrementing here ensures that we do not have an
-				// iterator to the current item
-				extract_to( from, to, it );
+				// extract invalidates the iterator to the current item, move past it
+				// first
+				auto const cur = it;
 				++it;
+				to.insert( from.extract( cur ) );
 			} else {
 				++it;
 			}
-- 
2.43.0


From 89a7cec2547a01630df3f8c9ebd11fd584eeee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:01 +0000
Subject: [PATCH 034/260] fix: advance and prev moved bidirectional iterators
 backwards by one step too few

---
 include/daw/cpp_17_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/cpp_17_iterator.h b/include/daw/cpp_17_iterator.h
index 822c211..51272eb 100644
--- a/include/daw/cpp_17_iterator.h
+++ b/include/daw/cpp_17_iterator.h
@@ -66,7 +66,7 @@ namespace daw {
 					++first;
 				}
 			} else {
-				while( ++n < 0 ) {
+				while( n++ < 0 ) {
 					--first;
 				}
 			}
-- 
2.43.0


From db6753179f7b89dabc77428a719985ef31406737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 035/260] fix: container max_element without a comparison could
 not be called

---
 include/daw/daw_container_algorithm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 4b91a88..5bc12af 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -328,7 +328,7 @@ namespace daw::container {
 		                unary_operator );
 	}
 
-	template<typename Container, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container &container ) noexcept(
@@ -339,7 +339,7 @@ namespace daw::container {
 		                                    std::cend( container ) );
 	}
 
-	template<typename Container, typename OutputIterator, typename UnaryOperator,
+	template<typename Container,
 	         std::enable_if_t<daw::traits::is_container_like_v<Container>,
 	                          std::nullptr_t> = nullptr>
 	constexpr decltype( auto ) max_element( Container const &container ) noexcept(
-- 
2.43.0


From 717e88cc59f061ac93fc59c83e20f1923f619ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 036/260] fix: container transform into a named output iterator
 could not be called

---
 include/daw/daw_container_algorithm.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_container_algorithm.h b/include/daw/daw_container_algorithm.h
index 5bc12af..91fe77d 100644
--- a/include/daw/daw_container_algorithm.h
+++ b/include/daw/daw_container_algorithm.h
@@ -299,9 +299,9 @@ namespace daw::container {
 		  std::is_invocable_v<UnaryOperator, decltype( *std::cbegin( container ) )>,
 		  "UnaryOperator is not callable with the values stored in Container" );
 
-		static_assert( std::is_convertible_v<decltype( unary_operator(
-		                                       *std::cbegin( container ) ) ),
-		                                     decltype( *first_out )>,
+		static_assert( std::is_assignable_v<decltype( *first_out ),
+		                                    decltype( unary_operator(
+		                                      *std::cbegin( container ) ) )>,
 		               "Output of UnaryOperator cannot be assigned to *first_out" );
 
 		return std::transform( std::cbegin( container ), std::cend( container ),
-- 
2.43.0


From 5bf811e222a8171fb7e90e923f419d10502103a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 037/260] fix: bounded_hash_map erase hid other keys that had
 collided with the erased one

---
 include/daw/deprecated/daw_bounded_hash_map.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index c7adc75..2067594 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -533,9 +533,21 @@ namespace daw {
 		}
 
 		constexpr void erase( Key const &key ) {
-			auto idx = find_index( key );
-			if( idx ) {
-				m_data[*idx] = bounded_hash_map_item_t<Key, Value>( );
+			auto const idx = find_index( key );
+			if( not idx or not m_data[*idx] ) {
+				return;
+			}
+			size_type const erased = *idx;
+			m_data[erased] = bounded_hash_map_item_t<Key, Value>( );
+			// The items following in the same probe sequence may only be reachable
+			// through the erased position, put them back where they are now found
+			for( size_type n = ( erased + 1U ) % capacity( );
+			     n != erased and m_data[n];
+			     n = ( n + 1U ) % capacity( ) ) {
+				auto item = std::move( m_data[n] );
+				m_data[n] = bounded_hash_map_item_t<Key, Value>( );
+				auto const pos = find_index( item.kv.key );
+				m_data[*pos] = std::move( item );
 			}
 		}
 	};
-- 
2.43.0


From 5cf3570bef581810ef6a4033a4536120740fd635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 038/260] fix: bounded_hash_map find returned an iterator to an
 empty slot for missing keys

---
 include/daw/deprecated/daw_bounded_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 2067594..167918a 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -516,7 +516,7 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
@@ -525,7 +525,7 @@ namespace daw {
 
 		constexpr const_iterator find( Key const &key ) const {
 			auto idx = find_index( key );
-			if( not idx ) {
+			if( not idx or not m_data[*idx] ) {
 				return end( );
 			}
 			return { std::data( m_data ), std::data( m_data ) + capacity( ),
-- 
2.43.0


From b14776905523a8d0ded887c5aee96569a3da966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 039/260] fix: bounded_hash_set_t erase hid other keys that had
 collided with the erased one and reported erasing missing keys

---
 include/daw/deprecated/daw_bounded_hash_set.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 5427c4b..369533b 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -366,11 +366,22 @@ namespace daw {
 		constexpr std::optional<size_type> erase( Key const &key ) noexcept {
 			auto const hash = hasher{ }( key );
 			auto const index = find_index( hash, key );
-			if( !index ) {
+			if( !index or !m_data[*index].has_value ) {
 				return { };
 			}
 			// m_data[*index].key = Key{};
 			m_data[*index].has_value = false;
+			// The keys following in the same probe sequence may only be reachable
+			// through the erased position, put them back where they are now found
+			for( size_type n = ( *index + 1U ) % Capacity;
+			     n != *index and m_data[n].has_value;
+			     n = ( n + 1U ) % Capacity ) {
+				auto item = std::move( m_data[n].key );
+				m_data[n].has_value = false;
+				auto const pos = find_index( hasher{ }( item ), item );
+				m_data[*pos].key = std::move( item );
+				m_data[*pos].has_value = true;
+			}
 			return *index;
 		}
 
-- 
2.43.0


From b6a24589192de226479d546ad8e1e82ad1d5afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 040/260] fix: bounded_hash_set_t find returned an iterator to
 an empty slot for missing keys and the const overload did not compile

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index 369533b..fe6d5d6 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -461,15 +461,15 @@ namespace daw {
 
 		constexpr iterator find( Key const &key ) noexcept {
 			auto idx = find_index( hasher{ }( key ), key );
-			if( !idx ) {
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
 		}
 
 		constexpr const_iterator find( Key const &key ) const noexcept {
-			auto idx = find_index( key );
-			if( !idx ) {
+			auto idx = find_index( hasher{ }( key ), key );
+			if( !idx or !m_data[*idx].has_value ) {
 				return end( );
 			}
 			return { m_data.data( ), m_data.data( ) + m_data.size( ), &m_data[*idx] };
-- 
2.43.0


From 0ef8c05a6f98b5a20c92b58544fd24d4705c8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 041/260] fix: bounded_hash_set_t iterators read past the end
 of the set

---
 include/daw/deprecated/daw_bounded_hash_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index fe6d5d6..b6491f0 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -76,7 +76,7 @@ namespace daw {
 
 		constexpr const_bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position < m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -167,7 +167,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator++( ) noexcept {
 			++m_position;
-			while( !m_position->has_value and m_position <= m_last ) {
+			while( m_position < m_last and !m_position->has_value ) {
 				++m_position;
 			}
 			return *this;
@@ -181,7 +181,7 @@ namespace daw {
 
 		constexpr bounded_hash_set_iterator &operator--( ) noexcept {
 			--m_position;
-			while( !m_position->has_value and m_position >= m_first ) {
+			while( m_position > m_first and !m_position->has_value ) {
 				--m_position;
 			}
 			return *this;
-- 
2.43.0


From 4f51344a297767af467f12b02172702a60b1d9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 042/260] fix: bounded_hash_set_t size did not compile

---
 include/daw/deprecated/daw_bounded_hash_set.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_set.h b/include/daw/deprecated/daw_bounded_hash_set.h
index b6491f0..596cff4 100644
--- a/include/daw/deprecated/daw_bounded_hash_set.h
+++ b/include/daw/deprecated/daw_bounded_hash_set.h
@@ -401,8 +401,9 @@ namespace daw {
 
 		[[nodiscard]] constexpr size_type size( ) const noexcept {
 			return daw::algorithm::accumulate(
-			  std::begin( m_data ), std::end( m_data ), 0ULL, []( auto const &opt ) {
-				  return opt.has_value ? 1ULL : 0ULL;
+			  std::begin( m_data ), std::end( m_data ), size_type{ 0 },
+			  []( size_type count, auto const &opt ) {
+				  return count + ( opt.has_value ? 1U : 0U );
 			  } );
 		}
 
-- 
2.43.0


From f8520b3928cecbdc9e4747e25d7748c9db6a470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 043/260] fix: hash_set_t erase and size did not compile

---
 include/daw/daw_hash_set.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index 9aa39cf..b0fdc14 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -72,10 +72,19 @@ namespace daw {
 		std::optional<std::size_t> erase( Key const &key ) {
 			std::uint64_t const hash = Hash{ }( key );
 			auto const index = find_index( hash, key );
-			if( not index ) {
+			if( not index or not m_indices[*index] ) {
 				return { };
 			}
-			m_indices[index] = std::nullopt;
+			m_indices[*index] = std::nullopt;
+			// The keys following in the same probe sequence may only be reachable
+			// through the erased position, put them back where they are now found
+			for( std::size_t n = ( *index + 1U ) % m_indices.size( );
+			     n != *index and m_indices[n]; n = ( n + 1U ) % m_indices.size( ) ) {
+				auto item = std::move( *m_indices[n] );
+				m_indices[n] = std::nullopt;
+				auto const pos = find_index( Hash{ }( item ), item );
+				m_indices[*pos] = std::move( item );
+			}
 			return index;
 		}
 
@@ -99,8 +108,10 @@ namespace daw {
 		[[nodiscard]] std::size_t size( ) const noexcept {
 			return daw::algorithm::accumulate( std::begin( m_indices ),
 			                                   std::end( m_indices ), std::size_t{ },
-			                                   []( auto const &opt ) {
-				                                   return opt.has_value( ) ? 1U : 0U;
+			                                   []( std::size_t count,
+			                                       auto const &opt ) {
+				                                   return count +
+				                                          ( opt.has_value( ) ? 1U : 0U );
 			                                   } );
 		}
 	};
-- 
2.43.0


From 35a70e30cf6f07fd56b6f8123a69e629715eabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 044/260] fix: hash_set_t divided by zero when it has no
 capacity

---
 include/daw/daw_hash_set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_hash_set.h b/include/daw/daw_hash_set.h
index b0fdc14..63efd7b 100644
--- a/include/daw/daw_hash_set.h
+++ b/include/daw/daw_hash_set.h
@@ -34,6 +34,9 @@ namespace daw {
 
 		[[nodiscard]] std::optional<std::size_t>
 		find_index( std::uint64_t hash, Key const &key ) const {
+			if( m_indices.empty( ) ) {
+				return { };
+			}
 			std::size_t const scaled_hash = scale_hash( hash, m_indices.size( ) );
 
 			for( std::size_t n = scaled_hash; n < m_indices.size( ); ++n ) {
-- 
2.43.0


From 520147667901f3f677a26b2ad458450ecb793293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:25 +0000
Subject: [PATCH 045/260] fix: static_hash_t default construction and const
 lookup by non-string key did not compile

---
 include/daw/static_hash_table.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/daw/static_hash_table.h b/include/daw/static_hash_table.h
index 5b95b77..0e92e08 100644
--- a/include/daw/static_hash_table.h
+++ b/include/daw/static_hash_table.h
@@ -108,9 +108,7 @@ namespace daw {
 
 	public:
 		constexpr static_hash_t( )
-		  : m_values{ } {
-			daw::algorithm::fill_n( m_values.begin( ), Capacity, hash_item{ } );
-		}
+		  : m_values{ } {}
 
 		constexpr static_hash_t(
 		  std::initializer_list<std::pair<char const *const, value_type>> items ) {
@@ -158,7 +156,6 @@ namespace daw {
 		[[nodiscard]] constexpr const_reference operator[]( K const &key ) const {
 			auto const hash = hash_fn( key );
 			auto const pos = find_impl( hash );
-			m_values[pos].hash_value = hash;
 			return m_values[pos].value;
 		}
 
-- 
2.43.0


From 94ccd3cabb4718f130132a387beacc15bd2193ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 046/260] fix: bounded_hash_map try_get did not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 167918a..2200573 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -437,7 +437,7 @@ namespace daw {
 			if( not item ) {
 				return { };
 			}
-			return item.kv.value;
+			return daw::optional<mapped_type const &>( item.kv.value );
 		}
 
 		constexpr size_type count( Key const &key ) const {
-- 
2.43.0


From b0c77bc4fb85d410fcea92015f5fcf72d23a8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:08 +0000
Subject: [PATCH 047/260] fix: bounded_hash_map empty did not compile

---
 include/daw/deprecated/daw_bounded_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_bounded_hash_map.h b/include/daw/deprecated/daw_bounded_hash_map.h
index 2200573..4f05090 100644
--- a/include/daw/deprecated/daw_bounded_hash_map.h
+++ b/include/daw/deprecated/daw_bounded_hash_map.h
@@ -468,7 +468,7 @@ namespace daw {
 			return daw::algorithm::find_if( std::cbegin( m_data ),
 			                                std::cend( m_data ),
 			                                []( auto const &value ) {
-				                                return value;
+				                                return value.has_value;
 			                                } ) == std::cend( m_data );
 		}
 
-- 
2.43.0


From 4f9d41fc63f99bcec07525832451c06fee45aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 048/260] fix: ordered_map reverse iteration did not compile

---
 include/daw/deprecated/daw_ordered_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 41071a1..5d360fd 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -126,17 +126,17 @@ namespace daw {
 			return cbeginer( m_values );
 		}
 
-		constexpr iterator rbegin( ) noexcept {
+		constexpr reverse_iterator rbegin( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator rbegin( ) const noexcept {
+		constexpr const_reverse_iterator rbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return rbeginer( m_values );
 		}
 
-		constexpr const_iterator crbegin( ) const noexcept {
+		constexpr const_reverse_iterator crbegin( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crbeginer( m_values );
 		}
@@ -156,17 +156,17 @@ namespace daw {
 			return cender( m_values );
 		}
 
-		constexpr iterator rend( ) noexcept {
+		constexpr reverse_iterator rend( ) noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator rend( ) const noexcept {
+		constexpr const_reverse_iterator rend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return render( m_values );
 		}
 
-		constexpr const_iterator crend( ) const noexcept {
+		constexpr const_reverse_iterator crend( ) const noexcept {
 			using namespace daw::ordered_map_impl;
 			return crender( m_values );
 		}
-- 
2.43.0


From ce8856f0af935183d3287bcad4bb10e65f1f5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 049/260] fix: ordered_map construction from a range or
 initializer list did not compile

---
 include/daw/deprecated/daw_ordered_map.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/deprecated/daw_ordered_map.h b/include/daw/deprecated/daw_ordered_map.h
index 5d360fd..b284af9 100644
--- a/include/daw/deprecated/daw_ordered_map.h
+++ b/include/daw/deprecated/daw_ordered_map.h
@@ -235,11 +235,11 @@ namespace daw {
 		                       InputIterator last,
 		                       key_compare const &comp = key_compare{ },
 		                       allocator_type const &alloc = allocator_type{ } )
-		  : m_compare( comp )
-		  , m_values( alloc ) {
+		  : m_values( alloc )
+		  , m_compare( comp ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( std::get<0>( *first ) ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -249,11 +249,11 @@ namespace daw {
 		template<typename InputIterator>
 		constexpr ordered_map( InputIterator first,
 		                       InputIterator last,
-		                       allocator_type const &alloc = allocator_type{ } )
+		                       allocator_type const &alloc )
 		  : m_values( alloc ) {
 
 			while( first != last ) {
-				if( auto pos = find( *first ); pos == end( ) ) {
+				if( auto pos = find( std::get<0>( *first ) ); pos == end( ) ) {
 					m_values.insert( pos, *first );
 				}
 				++first;
@@ -267,7 +267,7 @@ namespace daw {
 		  , m_compare( comp ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
@@ -278,7 +278,7 @@ namespace daw {
 		  : m_values( alloc ) {
 
 			for( auto const &value : init ) {
-				if( auto pos = find( value ); pos == end( ) ) {
+				if( auto pos = find( value.first ); pos == end( ) ) {
 					m_values.insert( pos, value );
 				}
 			}
-- 
2.43.0


From 36b7eb749e9c549295be0e06cef84e9a6dd82b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 050/260] fix: fixed_lookup read indeterminate hashes when it
 was default initialized

---
 include/daw/deprecated/daw_fixed_lookup.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index 88e1838..ce30236 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -68,8 +68,8 @@ namespace daw {
 		using const_reference = value_t const &;
 
 	private:
-		std::array<hash_value_t, N> m_hashes;
-		std::array<value_t, N> m_values;
+		std::array<hash_value_t, N> m_hashes{ };
+		std::array<value_t, N> m_values{ };
 
 	public:
 		static constexpr hash_value_t capacity( ) noexcept {
-- 
2.43.0


From 4328ab0e1e8e590f66511092f919703807d309eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 051/260] fix: fixed_lookup did not compile with 4 byte hashes

---
 include/daw/deprecated/daw_fixed_lookup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index ce30236..d47b8d4 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -134,7 +134,7 @@ namespace daw {
 					return lookup_result_t{ n, false };
 				}
 			}
-			return lookup_result_t{ m_hashes.size( ), false };
+			return lookup_result_t{ capacity( ), false };
 		}
 
 	public:
-- 
2.43.0


From 1690d54c46de9b155328fdd45c2d3c2f70f1c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:11 +0000
Subject: [PATCH 052/260] fix: make_fixed_lookup ignored its hash size

---
 include/daw/deprecated/daw_fixed_lookup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_fixed_lookup.h b/include/daw/deprecated/daw_fixed_lookup.h
index d47b8d4..ee68e21 100644
--- a/include/daw/deprecated/daw_fixed_lookup.h
+++ b/include/daw/deprecated/daw_fixed_lookup.h
@@ -195,7 +195,7 @@ namespace daw {
 
 	template<typename Value, size_t HashSize = sizeof( size_t ), typename... Keys>
 	constexpr auto make_fixed_lookup( Keys &&...keys ) noexcept {
-		fixed_lookup<Value, sizeof...( Keys )> result{ };
+		fixed_lookup<Value, sizeof...( Keys ), HashSize> result{ };
 		auto const lst = { ( result[keys] = Value{ }, 0 )... };
 		Unused( lst );
 		return result;
-- 
2.43.0


From 5d57586680f7fa5fb406006de60064d0c23629f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 053/260] fix: bounded_vector_t has_room reported the opposite

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index fbaf505..a29bb1d 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -78,7 +78,7 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr bool has_room( size_type count ) noexcept {
-			return count + size( ) >= N;
+			return count <= available( );
 		}
 
 		[[nodiscard]] constexpr size_type available( ) const noexcept {
-- 
2.43.0


From e71b56a8ab3fc0c9dfc8f4a2e2ebc40dce32f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 054/260] fix: bounded_vector_t pop_front( count ) extended the
 sequence instead of shortening it

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a29bb1d..3593104 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -271,9 +271,9 @@ namespace daw {
 
 		constexpr void pop_front( size_type const count ) {
 			daw::exception::precondition_check<std::out_of_range>(
-			  m_index <= m_index - count, "Attempt to pop_front past end of stack" );
+			  count <= size( ), "Attempt to pop_front past end of stack" );
 
-			m_index += count;
+			m_first += count;
 		}
 
 		///	take care calling as it is slow
-- 
2.43.0


From 48923cfe42a4253dea134fc55e1e5f535d9ce058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 055/260] fix: bounded_vector_t resize ignored elements popped
 from the front

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 3593104..4fa0e5f 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -289,14 +289,14 @@ namespace daw {
 			  count <= capacity( ), "Attempt to resize past capacity of fix_stack" );
 
 			if( count > size( ) ) {
-				if( can_move_front( count ) ) {
+				if( can_move_front( count - size( ) ) ) {
 					do_move_to_front( );
 				}
 				for( size_type n = size( ); n < count; ++n ) {
-					m_stack[n] = value_type{ };
+					m_stack[m_first + n] = value_type{ };
 				}
 			}
-			m_index = count;
+			m_index = m_first + count;
 		}
 
 		constexpr iterator erase( const_iterator pos ) {
-- 
2.43.0


From 07f8c9b7dff923575a5b73636125b13f3aad3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 056/260] fix: bounded_vector_t end subscripted past the
 storage when full

---
 include/daw/daw_bounded_vector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 4fa0e5f..f04e2d7 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -160,15 +160,15 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr iterator end( ) noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator end( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr const_iterator cend( ) const noexcept {
-			return &m_stack[m_index];
+			return m_stack.begin( ) + m_index;
 		}
 
 		[[nodiscard]] constexpr reverse_iterator rend( ) noexcept {
-- 
2.43.0


From 46ba45bf5eae261ecdb5170cf8c856ef084a23c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 057/260] fix: bounded_vector_t swap lost elements when sizes
 or front positions differ

---
 include/daw/daw_bounded_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index f04e2d7..6176f74 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -344,8 +344,8 @@ namespace daw {
 		constexpr void swap( bounded_vector_t &rhs ) {
 			daw::cswap( m_index, rhs.m_index );
 			daw::cswap( m_first, rhs.m_first );
-			for( std::size_t n = 0; n < size( ); ++n ) {
-				daw::cswap( operator[]( n ), rhs[n] );
+			for( std::size_t n = 0; n < N; ++n ) {
+				daw::cswap( m_stack[n], rhs.m_stack[n] );
 			}
 		}
 	};
-- 
2.43.0


From 45347fdd1c37bc7e3011c43496654d012ea6bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 058/260] fix: bounded_vector_t erase returned the wrong
 position and could not erase everything

---
 include/daw/daw_bounded_vector.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 6176f74..4c8de2b 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -308,10 +308,7 @@ namespace daw {
 				std::advance( last, 1 );
 			}
 			resize( size( ) - 1 );
-			if( pos == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), pos ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), pos ) );
 		}
 
 		constexpr iterator erase( const_iterator first, const_iterator last ) {
@@ -325,14 +322,11 @@ namespace daw {
 			auto const dist = std::distance( first, last );
 
 			daw::exception::dbg_precondition_check<std::out_of_range>(
-			  static_cast<difference_type>( size( ) ) > dist and dist >= 0,
+			  static_cast<difference_type>( size( ) ) >= dist and dist >= 0,
 			  "Attempt to resize past capacity of fix_stack" );
 
 			resize( size( ) - static_cast<size_type>( dist ) );
-			if( last == cend( ) ) {
-				return end( );
-			}
-			return std::next( begin( ), std::distance( cbegin( ), last ) + 1 );
+			return std::next( begin( ), std::distance( cbegin( ), first ) );
 		}
 
 		constexpr void zero( ) noexcept {
-- 
2.43.0


From 1283c489659de95dd38bb27ddee542bde5e9eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 059/260] fix: bounded_vector_t push_back( ) returned a
 position that ignored popped front elements

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index 4c8de2b..b66dad9 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -221,7 +221,7 @@ namespace daw {
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			return m_index++;
+			return m_index++ - m_first;
 		}
 
 		constexpr void push_back( const_pointer ptr, size_type sz ) noexcept {
-- 
2.43.0


From fa7a2029c0e821e795cc5cbb1f9187258658c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 060/260] fix: bounded_vector_t emplace_back with more
 arguments than capacity wrote past the storage

---
 include/daw/daw_bounded_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index b66dad9..a57315b 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -258,7 +258,7 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
-			if( can_move_front( sizeof...( Args ) ) ) {
+			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
 			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
-- 
2.43.0


From 33a4acdb118bafb677279c968e7003d8421aae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:56 +0000
Subject: [PATCH 061/260] fix: bounded_vector_t push_back of its own element
 stored another element

---
 include/daw/daw_bounded_vector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_bounded_vector.h b/include/daw/daw_bounded_vector.h
index a57315b..e85042f 100644
--- a/include/daw/daw_bounded_vector.h
+++ b/include/daw/daw_bounded_vector.h
@@ -198,18 +198,21 @@ namespace daw {
 
 	public:
 		constexpr void push_back( const_reference value ) noexcept {
+			// value may refer to an element that moving to front relocates
+			auto tmp = value_type( value );
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = value;
+			m_stack[m_index] = std::move( tmp );
 			++m_index;
 		}
 
 		constexpr void push_back( value_type &&value ) noexcept {
+			auto tmp = value_type( std::move( value ) );
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = std::move( value );
+			m_stack[m_index] = std::move( tmp );
 			++m_index;
 		}
 
@@ -258,10 +261,11 @@ namespace daw {
 
 		template<typename... Args>
 		constexpr void emplace_back( Args &&...args ) noexcept {
+			auto tmp = daw::construct_a<value_type>( DAW_FWD( args )... );
 			if( can_move_front( 1 ) ) {
 				do_move_to_front( );
 			}
-			m_stack[m_index] = daw::construct_a<value_type>( DAW_FWD( args )... );
+			m_stack[m_index] = std::move( tmp );
 			++m_index;
 		}
 
-- 
2.43.0


From 238f502e3c63b8c24605845338984fb29c0e29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 062/260] fix: ring_adaptor emplace_back advanced the head
 instead of the tail

---
 include/daw/daw_ring_adaptor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_ring_adaptor.h b/include/daw/daw_ring_adaptor.h
index 8687bd1..633d0c8 100644
--- a/include/daw/daw_ring_adaptor.h
+++ b/include/daw/daw_ring_adaptor.h
@@ -96,9 +96,9 @@ namespace daw {
 		template<typename... Args>
 		reference emplace_back( Args &&...args ) {
 			assert( not is_full( ) );
-			auto const idx = get_idx( m_head );
-			++m_head;
+			auto const idx = get_idx( m_tail );
 			m_queue[idx] = construct_a<value_type>( DAW_FWD( args )... );
+			++m_tail;
 			return m_queue[idx];
 		}
 
-- 
2.43.0


From 599256912f277c4aebb17bc9058d8c2e8192a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 063/260] fix: basic_bit_queue masked a pushed value before
 converting its byte order

---
 include/daw/daw_bit_queues.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 5a8fa6e..a6fecf6 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -85,11 +85,12 @@ namespace daw {
 			  ( capacity( ) - m_size ) >= bits,
 			  "Not enough bits to hold value pushed" );
 
+			value = source_to_native_endian( value, BitQueueLSB{ } );
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
 			m_queue <<= bits;
-			m_queue |= source_to_native_endian( value, BitQueueLSB{ } );
+			m_queue |= value;
 			m_size += bits;
 		}
 
-- 
2.43.0


From 457cad895827f361797be77894bd497ed4792c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 064/260] fix: basic_bit_queue shifted by the full width of the
 queue

---
 include/daw/daw_bit_queues.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index a6fecf6..c48b9e1 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -65,6 +65,19 @@ namespace daw {
 		}
 
 	private:
+		// shifting by the width of the type, or more, is otherwise undefined
+		[[nodiscard]] static constexpr queue_type
+		shift_left( queue_type v, size_t bits ) noexcept {
+			return bits < bit_count_v<queue_type> ? static_cast<queue_type>( v << bits )
+			                                      : queue_type{ };
+		}
+
+		[[nodiscard]] static constexpr queue_type
+		shift_right( queue_type v, size_t bits ) noexcept {
+			return bits < bit_count_v<queue_type> ? static_cast<queue_type>( v >> bits )
+			                                      : queue_type{ };
+		}
+
 		template<typename T>
 		constexpr auto
 		source_to_native_endian( T value,
@@ -89,7 +102,7 @@ namespace daw {
 			value &= mask_msb<value_type>(
 			  bit_count_v<value_type> -
 			  bits ); // get_left_mask<value_type>( bit_count_v<value_type> - bits );
-			m_queue <<= bits;
+			m_queue = shift_left( m_queue, bits );
 			m_queue |= value;
 			m_size += bits;
 		}
@@ -100,7 +113,7 @@ namespace daw {
 			auto const mask = mask_msb<queue_type>( capacity( ) - bits );
 			auto result =
 			  static_cast<value_type>( static_cast<value_type>( m_queue & mask ) );
-			m_queue >>= bits;
+			m_queue = shift_right( m_queue, bits );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 110f0a5b0b1a03bd9ce26a9c7921d7eef8afbd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 065/260] fix: basic_bit_queue pop_back truncated the queue
 before extracting the bits

---
 include/daw/daw_bit_queues.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index c48b9e1..78f3756 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -121,11 +121,10 @@ namespace daw {
 		[[nodiscard]] constexpr value_type pop_back( size_t const bits ) {
 			daw::exception::dbg_throw_on_false( m_size >= bits,
 			                                    "Not enough bits to pop request" );
-			auto mask = queue_type( ( 1 << bits ) - 1 );
-			mask <<= size( ) - bits;
-			auto result = static_cast<value_type>( m_queue & mask );
-			result >>= size( ) - bits;
-			m_queue = m_queue & ~mask;
+			auto const remaining = size( ) - bits;
+			auto const result =
+			  static_cast<value_type>( shift_right( m_queue, remaining ) );
+			m_queue &= mask_msb<queue_type>( capacity( ) - remaining );
 			m_size -= bits;
 			return result;
 		}
-- 
2.43.0


From 9f6f1a231b85a8f641d188c59d004c0c865caa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:49 +0000
Subject: [PATCH 066/260] fix: basic_nibble_queue capacity and full could only
 be used in constant expressions

---
 include/daw/daw_bit_queues.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_bit_queues.h b/include/daw/daw_bit_queues.h
index 78f3756..97b7d55 100644
--- a/include/daw/daw_bit_queues.h
+++ b/include/daw/daw_bit_queues.h
@@ -159,7 +159,7 @@ namespace daw {
 		  : m_queue{ std::move( v ) } {}
 
 		[[nodiscard]] constexpr size_t capacity( ) const noexcept {
-			return m_queue.capacity( ) / 4;
+			return basic_bit_queue<queue_type, value_type>::capacity( ) / 4;
 		}
 
 		[[nodiscard]] constexpr size_t size( ) const noexcept {
-- 
2.43.0


From 49c8f5d6446816303b695128ea8f077b2809ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 067/260] fix: to_native_endian never converted

---
 include/daw/daw_endian.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index fa60fb6..be27930 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -144,7 +144,7 @@ namespace daw {
 	constexpr T to_native_endian( T value ) noexcept {
 		if constexpr( SourceEndian == endian::native ) {
 			return value;
-		} else if constexpr( endian::native == endian::little ) {
+		} else if constexpr( SourceEndian == endian::little ) {
 			return to_little_endian( value );
 		} else {
 			return to_big_endian( value );
-- 
2.43.0


From 49c73c6a3a133af76da8eff334f1b4754096f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 068/260] fix: network_to_host_endian never converted

---
 include/daw/daw_endian.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_endian.h b/include/daw/daw_endian.h
index be27930..e7234c4 100644
--- a/include/daw/daw_endian.h
+++ b/include/daw/daw_endian.h
@@ -132,11 +132,8 @@ namespace daw {
 	template<typename T,
 	         std::enable_if_t<daw::is_integral_v<T>, std::nullptr_t> = nullptr>
 	constexpr T network_to_host_endian( T value ) noexcept {
-		if constexpr( endian::native == endian::big ) {
-			return value;
-		} else {
-			return to_little_endian( value );
-		}
+		// network order is big endian
+		return to_big_endian( value );
 	}
 
 	template<endian SourceEndian, typename T,
-- 
2.43.0


From f8fd46192e52eb647caddc7e57025595eeca0f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 069/260] fix: optional operator-> took the address of a
 temporary and could not be used

---
 include/daw/daw_optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 5e2c5a5..d5512db 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -59,11 +59,11 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr pointer operator->( ) noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		[[nodiscard]] constexpr const_pointer operator->( ) const noexcept {
-			return &m_value.operator->( );
+			return m_value.operator->( );
 		}
 
 		void swap( optional &other ) noexcept(
-- 
2.43.0


From 0c5b9d84f420dbab46997ceea5d11b0d378195b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 070/260] fix: optional operator>=( nullopt, opt ) was true
 exactly when opt had a value

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index d5512db..223c5d3 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -375,7 +375,7 @@ namespace daw {
 
 	template<typename T>
 	constexpr bool operator>=( std::nullopt_t, optional<T> const &opt ) noexcept {
-		return static_cast<bool>( opt );
+		return not opt;
 	}
 
 	template<typename T, typename U>
-- 
2.43.0


From b76d8495fd0759d98fd4b20567b1a87cee8949b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 071/260] fix: optional operator>=( value, opt ) compared in
 the wrong direction

---
 include/daw/daw_optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_optional.h b/include/daw/daw_optional.h
index 223c5d3..1526d89 100644
--- a/include/daw/daw_optional.h
+++ b/include/daw/daw_optional.h
@@ -469,7 +469,7 @@ namespace daw {
 	template<typename T, typename U>
 	constexpr bool operator>=( const T &value, const optional<U> &opt ) {
 		if( opt ) {
-			return *opt > value;
+			return value >= *opt;
 		}
 		return true;
 	}
-- 
2.43.0


From 5f1bc65c6cb52c16c04079a92a06e11190f4337c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 072/260] fix: expected_from_code<Result> discarded the result
 of the function

---
 include/daw/daw_expected.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index af3262f..db82984 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -408,9 +408,8 @@ namespace daw {
 		  daw::traits::is_callable_convertible_v<Result, Function, Args...>,
 		  "Must be able to convert result of func to expected result type" );
 
-		auto result = expected_t<Result>( );
-		result.from_code( DAW_FWD( func ), DAW_FWD( args )... );
-		return result;
+		return expected_t<Result>::from_code( DAW_FWD( func ),
+		                                      DAW_FWD( args )... );
 	}
 
 	template<typename Function, typename... Args>
-- 
2.43.0


From 001ce86f4b85b0db93dfa842b16bded8a3f80034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 073/260] fix: expected_t from_code could not convert the
 result of the function

---
 include/daw/daw_expected.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index db82984..98b6352 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -119,10 +119,12 @@ namespace daw {
 		variant_from_code( Function &&func, Args &&...args ) {
 #if defined( DAW_USE_EXCEPTIONS )
 			try {
-				return DAW_FWD( func )( DAW_FWD( args )... );
+				return variant_type( std::in_place_type<value_type>,
+				                     DAW_FWD( func )( DAW_FWD( args )... ) );
 			} catch( ... ) { return std::current_exception( ); }
 #else
-			return DAW_FWD( func )( DAW_FWD( args )... );
+			return variant_type( std::in_place_type<value_type>,
+			                     DAW_FWD( func )( DAW_FWD( args )... ) );
 #endif
 		}
 
-- 
2.43.0


From 5d418053cd7db0f83a868940e4f8bbc89b1e3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 074/260] fix: union_pair_t assigned to a member that had not
 been constructed

---
 include/daw/daw_union_pair.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_union_pair.h b/include/daw/daw_union_pair.h
index bab5c85..af1874b 100644
--- a/include/daw/daw_union_pair.h
+++ b/include/daw/daw_union_pair.h
@@ -10,6 +10,7 @@
 
 #include "ciso646.h"
 #include "cpp_17.h"
+#include "daw_construct_at.h"
 #include "daw_exception.h"
 #include "daw_move.h"
 #include "daw_unreachable.h"
@@ -81,11 +82,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type0>,
 			               "Incompatible type T cannot convert to Type0" );
 
-			if( type != data_types::type_0 ) {
-				clear( );
+			if( type == data_types::type_0 ) {
+				value0 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value0 = DAW_FWD( value );
+			clear( );
+			(void)daw::construct_at<Type0>( get_type0_ptr( ), DAW_FWD( value ) );
 			type = data_types::type_0;
 		}
 
@@ -94,11 +96,12 @@ namespace daw {
 			static_assert( std::is_convertible_v<T, Type1>,
 			               "Incompatible type T cannot convert to Type1" );
 
-			if( type != data_types::type_1 ) {
-				clear( );
+			if( type == data_types::type_1 ) {
+				value1 = DAW_FWD( value );
+				return;
 			}
-			type = data_types::type_nothing;
-			value1 = DAW_FWD( value );
+			clear( );
+			(void)daw::construct_at<Type1>( get_type1_ptr( ), DAW_FWD( value ) );
 			type = data_types::type_1;
 		}
 
-- 
2.43.0


From b27bac22a6f1231dba00722d9bb9c0f7f770d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 075/260] fix: checked_expected_t<void> copied its argument as
 a value

---
 include/daw/deprecated/daw_checked_expected.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 527f937..c6754c9 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -268,7 +268,14 @@ namespace daw {
 		checked_expected_t( ) noexcept
 		  : checked_expected_t{ false } {}
 
-		template<typename T>
+		template<
+		  typename T,
+		  std::enable_if_t<
+		    not std::is_same_v<daw::remove_cvref_t<T>, checked_expected_t> and
+		      not std::is_same_v<daw::remove_cvref_t<T>, std::exception_ptr> and
+		      not std::is_same_v<daw::remove_cvref_t<T>, exception_tag> and
+		      not std::is_invocable_v<T>,
+		    std::nullptr_t> = nullptr>
 		checked_expected_t( T && ) noexcept
 		  : checked_expected_t{ true } {}
 
-- 
2.43.0


From 654c118aa43abaf8f827ec78f2654315f3f3e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:03 +0000
Subject: [PATCH 076/260] fix: checked_expected_t<void> kept its exception when
 a value was assigned from another

---
 include/daw/deprecated/daw_checked_expected.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index c6754c9..07abb2a 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -245,9 +245,7 @@ namespace daw {
 		}
 		checked_expected_t &operator=( checked_expected_t const &rhs ) {
 			if( this != &rhs ) {
-				if( rhs.m_exception ) {
-					m_exception = rhs.m_exception;
-				}
+				m_exception = rhs.m_exception;
 				m_value = rhs.m_value;
 			}
 			return *this;
-- 
2.43.0


From 0f7bb883d9ae33cbc7fe8b6575dc1178e0c714d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 077/260] fix: checked_expected_t could not be constructed from
 an exception that was not an lvalue

---
 include/daw/deprecated/daw_checked_expected.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/deprecated/daw_checked_expected.h b/include/daw/deprecated/daw_checked_expected.h
index 07abb2a..c1d4c0e 100644
--- a/include/daw/deprecated/daw_checked_expected.h
+++ b/include/daw/deprecated/daw_checked_expected.h
@@ -140,7 +140,10 @@ namespace daw {
 
 		// template<class Function, typename... Args, typename =
 		// std::enable_if_t<is_callable_v<Function, Args...>>>
-		template<class Function, typename... Args>
+		template<class Function,
+		         typename... Args,
+		         std::enable_if_t<std::is_invocable_v<Function, Args...>,
+		                          std::nullptr_t> = nullptr>
 		checked_expected_t( Function func, Args &&...args )
 		  : checked_expected_t{
 		      checked_expected_t::from_code( func, DAW_FWD( args )... ) } {}
-- 
2.43.0


From 64d19cc85348a1f7e38a756fb9af6d86c3ebca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:29 +0000
Subject: [PATCH 078/260] fix: expected_t did not capture exceptions unless
 another header had been included first

---
 include/daw/daw_expected.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_expected.h b/include/daw/daw_expected.h
index 98b6352..36644d7 100644
--- a/include/daw/daw_expected.h
+++ b/include/daw/daw_expected.h
@@ -11,6 +11,7 @@
 #include "ciso646.h"
 #include "daw_assume.h"
 #include "daw_attributes.h"
+#include "daw_check_exceptions.h"
 #include "daw_move.h"
 #include "impl/daw_traits_impl.h"
 #include "traits/daw_traits_concepts.h"
-- 
2.43.0


From e984e6109a1a25de0df5f060824bb62b55fb3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 079/260] fix: daw::function copied and moved its target as
 bytes

---
 include/daw/daw_stack_function.h | 38 +++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b8b025c..0142455 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -46,15 +46,19 @@ namespace daw {
 				clean( );
 			}
 
-			function_storage( function_storage const & ) = default;
-			function_storage( function_storage && ) = default;
+			function_storage( function_storage const &other ) {
+				other->copy_into( &m_data );
+			}
+
+			function_storage( function_storage &&other ) {
+				other->move_into( &m_data );
+			}
 
 			function_storage &operator=( function_storage const &rhs ) {
 				if( this == &rhs ) {
 					return *this;
 				}
-				clean( );
-				m_data = rhs.m_data;
+				*this = function_storage( rhs );
 				return *this;
 			}
 
@@ -63,7 +67,7 @@ namespace daw {
 					return *this;
 				}
 				clean( );
-				m_data = std::move( rhs.m_data );
+				rhs->move_into( &m_data );
 				return *this;
 			}
 
@@ -121,6 +125,8 @@ namespace daw {
 			virtual Result operator( )( FuncArgs... ) const = 0;
 			virtual Result operator( )( FuncArgs... ) = 0;
 			[[nodiscard]] virtual bool empty( ) const = 0;
+			virtual void copy_into( void *storage ) const = 0;
+			virtual void move_into( void *storage ) = 0;
 		};
 
 		template<typename Result, typename... FuncArgs>
@@ -136,6 +142,14 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return true;
 			}
+
+			void copy_into( void *storage ) const override {
+				::new( storage ) empty_child( );
+			}
+
+			void move_into( void *storage ) override {
+				::new( storage ) empty_child( );
+			}
 		};
 
 		template<typename...>
@@ -197,6 +211,20 @@ namespace daw {
 			[[nodiscard]] bool empty( ) const override {
 				return empty_impl( m_func );
 			}
+
+			void copy_into( void *storage ) const override {
+				if constexpr( std::is_copy_constructible_v<Func> ) {
+					::new( storage ) function_child( m_func );
+				} else {
+					(void)storage;
+					// the target cannot be copied
+					daw::exception::daw_throw<std::bad_function_call>( );
+				}
+			}
+
+			void move_into( void *storage ) override {
+				::new( storage ) function_child( std::move( m_func ) );
+			}
 		};
 
 		template<size_t MaxSize, typename function_base, typename function_child,
-- 
2.43.0


From 3c75f7384e6a6297107e20202725f9eb2d536ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 080/260] fix: daw::function referred to a target that was
 given as an lvalue

---
 include/daw/daw_stack_function.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 0142455..b52558c 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -185,7 +185,9 @@ namespace daw {
 
 			Result operator( )( FuncArgs... args ) const override {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
-				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
+				if constexpr( not std::is_invocable_v<Func const &, FuncArgs...> ) {
+					return const_cast<Func &>( m_func )( args... );
+				} else if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
 					m_func( args... );
 					return;
@@ -277,8 +279,8 @@ namespace daw {
 		template<typename Func>
 		decltype( auto ) store_if_not_empty( Func &&f ) {
 			func_impl::validate_size<sizeof( std::decay_t<Func> ), MaxSize>( );
-			return func_impl::store_if_not_empty<MaxSize, function_base,
-			                                     function_child<Func>, empty_child>(
+			return func_impl::store_if_not_empty<
+			  MaxSize, function_base, function_child<std::decay_t<Func>>, empty_child>(
 			  DAW_FWD( f ) );
 		}
 
-- 
2.43.0


From c4b67d6fb81615ec9e42b55b3696cf4f9966899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 081/260] fix: daw::function could not be converted to one with
 more storage

---
 include/daw/daw_stack_function.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index b52558c..4cee7e1 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -73,7 +73,8 @@ namespace daw {
 
 			template<
 			  typename Func,
-			  std::enable_if_t<!std::is_same_v<std::decay_t<Func>, function_storage>,
+			  std::enable_if_t<!std::is_same_v<std::decay_t<Func>, function_storage> and
+			                     !std::is_same_v<std::decay_t<Func>, Base>,
 			                   std::nullptr_t> = nullptr>
 			function_storage( Func &&f ) {
 				static_assert( sizeof( std::decay_t<Func> ) <= StorageSize );
@@ -88,6 +89,11 @@ namespace daw {
 				return reinterpret_cast<Base const *>( &m_data );
 			}
 
+			// take a copy of a target that may be in storage of another size
+			explicit function_storage( Base const &base ) {
+				base.copy_into( &m_data );
+			}
+
 			void clean( ) {
 				std::destroy_at( ptr( ) );
 			}
@@ -265,8 +271,21 @@ namespace daw {
 	template<size_t, typename>
 	class function;
 
+	namespace func_impl {
+		// a daw::function of the same signature and of any size
+		template<typename, typename>
+		inline constexpr bool is_sized_function_v = false;
+
+		template<size_t N, typename Signature>
+		inline constexpr bool is_sized_function_v<function<N, Signature>, Signature> =
+		  true;
+	} // namespace func_impl
+
 	template<size_t MaxSize, typename Result, typename... FuncArgs>
 	class function<MaxSize, Result( FuncArgs... )> {
+		template<size_t, typename>
+		friend class function;
+
 		using function_base = func_impl::function_base<Result, FuncArgs...>;
 		using empty_child = func_impl::empty_child<Result, FuncArgs...>;
 
@@ -301,7 +320,8 @@ namespace daw {
 		template<size_t N,
 		         std::enable_if_t<( N <= MaxSize ), std::nullptr_t> = nullptr>
 		function &operator=( function<N, Result( FuncArgs... )> const &other ) {
-			m_storage = *other.m_storage;
+			m_storage =
+			  func_impl::function_storage<MaxSize, function_base>( *other.m_storage );
 			return *this;
 		}
 
@@ -312,7 +332,8 @@ namespace daw {
 
 		template<typename Func,
 		         std::enable_if_t<
-		           daw::all_true_v<!std::is_same_v<std::decay_t<Func>, function>,
+		           daw::all_true_v<!func_impl::is_sized_function_v<
+		                             std::decay_t<Func>, Result( FuncArgs... )>,
 		                           !std::is_function_v<Func>>,
 		           std::nullptr_t> = nullptr>
 		function( Func &&f )
@@ -324,7 +345,8 @@ namespace daw {
 
 		template<typename Func,
 		         std::enable_if_t<
-		           daw::all_true_v<!std::is_same_v<std::decay_t<Func>, function>,
+		           daw::all_true_v<!func_impl::is_sized_function_v<
+		                             std::decay_t<Func>, Result( FuncArgs... )>,
 		                           !std::is_function_v<Func>>,
 		           std::nullptr_t> = nullptr>
 		function &operator=( Func &&f ) {
-- 
2.43.0


From ed444cb7c835098828cbbb115e8ddb88dd9f5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 082/260] fix: daw::function passed every argument on as an
 lvalue

---
 include/daw/daw_stack_function.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_stack_function.h b/include/daw/daw_stack_function.h
index 4cee7e1..6825f40 100644
--- a/include/daw/daw_stack_function.h
+++ b/include/daw/daw_stack_function.h
@@ -181,25 +181,26 @@ namespace daw {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( static_cast<FuncArgs &&>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( static_cast<FuncArgs &&>( args )... );
 				}
 			}
 
 			Result operator( )( FuncArgs... args ) const override {
 				daw::exception::precondition_check<std::bad_function_call>( !empty( ) );
 				if constexpr( not std::is_invocable_v<Func const &, FuncArgs...> ) {
-					return const_cast<Func &>( m_func )( args... );
+					return const_cast<Func &>( m_func )(
+					  static_cast<FuncArgs &&>( args )... );
 				} else if constexpr( std::is_same_v<std::decay_t<Result>, void> ) {
 					// daw::invoke( m_func, std::move( args )... );
-					m_func( args... );
+					m_func( static_cast<FuncArgs &&>( args )... );
 					return;
 				} else {
 					// return daw::invoke( m_func, std::move( args )... );
-					return m_func( args... );
+					return m_func( static_cast<FuncArgs &&>( args )... );
 				}
 			}
 
-- 
2.43.0


From 4faf0b73f6ece71b2c462346038739f4bac7fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 083/260] fix: function_ref passed every argument on as an
 lvalue

---
 include/daw/daw_function_ref.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_function_ref.h b/include/daw/daw_function_ref.h
index 7169c3f..c1e1e57 100644
--- a/include/daw/daw_function_ref.h
+++ b/include/daw/daw_function_ref.h
@@ -56,11 +56,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR Result obj_thunk( data_t const &d,
 		                                             Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			return obj( params... );
+			return obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr Result fp_thunk( data_t const &d, Params... params ) {
-			return d.func_ptr( params... );
+			return d.func_ptr( std::forward<Params>( params )... );
 		}
 
 	public:
@@ -123,11 +123,11 @@ namespace daw {
 		static DAW_CPP26_CONSTEXPR void obj_thunk( data_t const &d,
 		                                           Params... params ) {
 			auto const &obj = *static_cast<Func const *>( d.obj_ptr );
-			(void)obj( params... );
+			(void)obj( std::forward<Params>( params )... );
 		}
 
 		static constexpr void fp_thunk( data_t const &d, Params... params ) {
-			d.func_ptr( params... );
+			d.func_ptr( std::forward<Params>( params )... );
 		}
 
 		template<
@@ -162,7 +162,7 @@ namespace daw {
 		}
 
 		constexpr void operator( )( Params... params ) const {
-			m_thunk( m_data, params... );
+			m_thunk( m_data, std::forward<Params>( params )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 9f0defabd462f284cf57373bcc69920a843f2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 084/260] fix: function_view could not be used with lvalue
 reference parameters

---
 include/daw/daw_function_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index fcd85d6..8f4bfdd 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -41,19 +41,19 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> Result {
-					        return ( d.fp_storage )( std::move( args )... );
+					        return ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr },
 				         []( data_t const &, Args... args ) -> Result {
-					         return fn_t{ }( std::move( args )... );
+					         return fn_t{ }( std::forward<Args>( args )... );
 				         } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> Result {
 					         return ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -80,18 +80,18 @@ namespace daw {
 			using fn_t = std::remove_reference_t<Func>;
 			if constexpr( std::is_pointer_v<fn_t> ) {
 				return { data_t{ f }, []( data_t const &d, Args... args ) -> void {
-					        ( d.fp_storage )( std::move( args )... );
+					        ( d.fp_storage )( std::forward<Args>( args )... );
 				        } };
 			} else if constexpr( std::is_empty_v<fn_t> and
 			                     std::is_default_constructible_v<fn_t> ) {
 				return { data_t{ nullptr }, []( data_t const &, Args... args ) -> void {
-					        fn_t{ }( std::move( args )... );
+					        fn_t{ }( std::forward<Args>( args )... );
 				        } };
 			} else {
 				return { data_t{ DAW_BIT_CAST( ref_buffer_t, std::addressof( f ) ) },
 				         +[]( data_t const &d, Args... args ) -> void {
 					         ( *DAW_BIT_CAST( fn_t const *, d.ref_storage ) )(
-					           std::move( args )... );
+					           std::forward<Args>( args )... );
 				         } };
 			}
 		}
@@ -111,7 +111,7 @@ namespace daw {
 
 		constexpr Result operator( )( Args... args ) const {
 			return function_view_table.call_ptr( function_view_table.data,
-			                                     std::move( args )... );
+			                                     std::forward<Args>( args )... );
 		}
 	};
 	template<typename... Args>
@@ -125,7 +125,7 @@ namespace daw {
 
 		constexpr void operator( )( Args... args ) const {
 			function_view_table.call_ptr( function_view_table.data,
-			                              std::move( args )... );
+			                              std::forward<Args>( args )... );
 		}
 	};
 } // namespace daw
-- 
2.43.0


From 987bbe009eba816231824f70cb3c55e6c418e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:15 +0000
Subject: [PATCH 085/260] fix: copying a function_view that was not const made
 a view of the view

---
 include/daw/daw_function_view.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_function_view.h b/include/daw/daw_function_view.h
index 8f4bfdd..bd26619 100644
--- a/include/daw/daw_function_view.h
+++ b/include/daw/daw_function_view.h
@@ -104,7 +104,10 @@ namespace daw {
 	struct function_view<Result( Args... )> {
 		function_view_table_storage<Result, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<std::decay_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<Result, Args...>::make( f ) ) {}
@@ -118,7 +121,10 @@ namespace daw {
 	struct function_view<void( Args... )> {
 		function_view_table_storage<void, Args...> function_view_table;
 
-		template<typename Func>
+		template<typename Func,
+		         std::enable_if_t<
+		           not std::is_same_v<std::decay_t<Func>, function_view>,
+		           std::nullptr_t> = nullptr>
 		constexpr function_view( Func &&f )
 		  : function_view_table(
 		      function_view_table_storage<void, Args...>::make( DAW_FWD( f ) ) ) {}
-- 
2.43.0


From 81bf13dab0a82620584db19021f62cc55597848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 086/260] fix: a ScopeGuard that was moved from still ran its
 handler

---
 include/daw/daw_scope_guard.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index 1f69219..fa06262 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -40,8 +40,23 @@ namespace daw {
 	public:
 		ScopeGuard( const ScopeGuard & ) = delete;
 		ScopeGuard &operator=( const ScopeGuard & ) = delete;
-		ScopeGuard( ScopeGuard && ) = default;
-		ScopeGuard &operator=( ScopeGuard && ) = default;
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard( ScopeGuard &&other ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> )
+		  : m_function{ std::move( other.m_function ) } {
+			other.m_function = std::nullopt;
+		}
+
+		DAW_ATTRIB_INLINE constexpr ScopeGuard &
+		operator=( ScopeGuard &&rhs ) noexcept(
+		  std::is_nothrow_move_constructible_v<FunctionType> and
+		  std::is_nothrow_move_assignable_v<FunctionType> ) {
+			if( this != &rhs ) {
+				m_function = std::move( rhs.m_function );
+				rhs.m_function = std::nullopt;
+			}
+			return *this;
+		}
 
 		DAW_ATTRIB_INLINE explicit constexpr ScopeGuard(
 		  FunctionType
-- 
2.43.0


From d19c962e5bf6072909c4b7c88903ed1f298e3729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 087/260] fix: ScopeGuard dismiss( ) could not be used

---
 include/daw/daw_scope_guard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index fa06262..d8394e0 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -88,8 +88,8 @@ namespace daw {
 			}
 		}
 
-		DAW_ATTRIB_INLINE constexpr void dismiss( ) const noexcept {
-			m_function = std::optional<FunctionType>( );
+		DAW_ATTRIB_INLINE constexpr void dismiss( ) noexcept {
+			m_function = std::nullopt;
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 6c9ab70659a6eaefff0b0c32023987b6d61c865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 088/260] fix: on_exit_success did not run its handler inside
 of a destructor called by unwinding

---
 include/daw/daw_scope_guard.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index d8394e0..a27cd95 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -108,6 +108,19 @@ namespace daw {
 	template<typename Handler>
 	class on_exit_success {
 		Handler on_exit_handler;
+#if not defined( DAW_DONT_USE_EXCEPTIONS )
+		// exceptions that were already in flight when the scope was entered
+		int m_uncaught_exceptions = uncaught( );
+
+		[[nodiscard]] static constexpr int uncaught( ) noexcept {
+#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
+			if( DAW_IS_CONSTANT_EVALUATED( ) ) {
+				return 0;
+			}
+#endif
+			return std::uncaught_exceptions( );
+		}
+#endif
 
 	public:
 		DAW_ATTRIB_INLINE constexpr on_exit_success( Handler &&h ) noexcept(
@@ -126,7 +139,7 @@ namespace daw {
 			} else {
 #endif
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-				if( std::uncaught_exceptions( ) == 0 ) {
+				if( std::uncaught_exceptions( ) <= m_uncaught_exceptions ) {
 #endif
 					on_exit_handler( );
 #if not defined( DAW_DONT_USE_EXCEPTIONS )
-- 
2.43.0


From ae55815b1bdc6a9225a1c831387e4e6304c37e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 089/260] fix: unique_resource reset( ) kept the value and
 released it again

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 8ff60a0..87dd7d2 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -52,6 +52,7 @@ namespace daw {
 		constexpr void reset( ) noexcept( std::is_nothrow_destructible_v<T> ) {
 			if( value ) {
 				Deleter{ }( *value );
+				value = std::nullopt;
 			}
 		}
 
-- 
2.43.0


From 0ce46837951be7edf81e902acaffb9ce8bc94ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 090/260] fix: move assigning from an empty unique_resource
 released a value it did not have

---
 include/daw/daw_unique_resource.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 87dd7d2..4b9145e 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -27,7 +27,10 @@ namespace daw {
 
 		unique_resource &operator=( unique_resource &&rhs ) noexcept(
 		  std::is_nothrow_move_assignable_v<T> ) {
-			reset( rhs.release( ) );
+			if( this != &rhs ) {
+				reset( );
+				value = daw::exchange( rhs.value, std::nullopt );
+			}
 			return *this;
 		}
 
-- 
2.43.0


From 0c515b737101c58e761f167fe601fdf8b8edce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 091/260] fix: countable_resource_t counted assignments and did
 not return from them

---
 include/daw/daw_countable_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_countable_resource.h b/include/daw/daw_countable_resource.h
index cb346ae..ad36b0a 100644
--- a/include/daw/daw_countable_resource.h
+++ b/include/daw/daw_countable_resource.h
@@ -27,7 +27,7 @@ namespace daw {
 		}
 
 		countable_resource_t &operator=( countable_resource_t const & ) noexcept {
-			++m_resource_count;
+			return *this;
 		}
 
 		~countable_resource_t( ) {
-- 
2.43.0


From f22ca5e9ed17759606570e76ad1e51fb37b1adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 092/260] fix: ScopeGuard used assert without including its
 header

---
 include/daw/daw_scope_guard.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_scope_guard.h b/include/daw/daw_scope_guard.h
index a27cd95..77d96fb 100644
--- a/include/daw/daw_scope_guard.h
+++ b/include/daw/daw_scope_guard.h
@@ -13,6 +13,7 @@
 #include "daw_cpp_feature_check.h"
 #include "daw_is_constant_evaluated.h"
 
+#include <cassert>
 #include <cstddef>
 #include <daw/stdinc/move_fwd_exch.h>
 #include <exception>
-- 
2.43.0


From bfafed3924ac43073a4afcbbb8e876a2420ab2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 093/260] fix: unique_resource used assert without including
 its header

---
 include/daw/daw_unique_resource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_unique_resource.h b/include/daw/daw_unique_resource.h
index 4b9145e..c6d40b0 100644
--- a/include/daw/daw_unique_resource.h
+++ b/include/daw/daw_unique_resource.h
@@ -11,6 +11,7 @@
 #include "daw_exchange.h"
 #include "daw_move.h"
 
+#include <cassert>
 #include <optional>
 #include <type_traits>
 
-- 
2.43.0


From f6df99c3bf223b945731b6db826a8b660c4fe97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 094/260] fix: shared_function used daw_ensure without
 including its header

---
 include/daw/daw_shared_function.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index f0c9550..d81b79d 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -10,6 +10,7 @@
 
 #include "daw/daw_cpp_feature_check.h"
 #include "daw/daw_cx_atomic.h"
+#include "daw/daw_ensure.h"
 #include "daw/daw_move.h"
 #include "daw/daw_utility.h"
 #include "daw/traits/daw_copy_cvref_t.h"
-- 
2.43.0


From 416d6bc1378fbbb0954b51f1f75002060147083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:01 +0000
Subject: [PATCH 095/260] fix: timed atomic waits did not compile with
 durations that do not convert to nanoseconds implicitly

---
 include/daw/daw_atomic_wait.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index ef6387e..2711e16 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -111,7 +111,8 @@ namespace daw {
 			return is_timed_out;
 		};
 		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
-		                                      poll_fn, rel_time );
+		                                      poll_fn,
+		                                      std::chrono::ceil<std::chrono::nanoseconds>( rel_time ) );
 		if( current == old ) {
 			return wait_status::timeout;
 		}
@@ -232,7 +233,8 @@ namespace daw {
 			return is_timed_out;
 		};
 		(void)atomic_impl::poll_with_backoff( atomic_impl::timed_backoff_policy,
-		                                      poll_fn, rel_time );
+		                                      poll_fn,
+		                                      std::chrono::ceil<std::chrono::nanoseconds>( rel_time ) );
 		if( predicate( current_value ) ) {
 			return wait_status::found;
 		}
-- 
2.43.0


From dac4df0b273369c19a9dd03c4bd768d316df8945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:43 +0000
Subject: [PATCH 096/260] fix: atomic_wait_if did not synchronize with the
 store that satisfied its predicate

---
 include/daw/daw_atomic_wait.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_atomic_wait.h b/include/daw/daw_atomic_wait.h
index 2711e16..68e83e6 100644
--- a/include/daw/daw_atomic_wait.h
+++ b/include/daw/daw_atomic_wait.h
@@ -177,7 +177,7 @@ namespace daw {
 		auto const &const_current = current;
 		while( not predicate( const_current ) ) {
 			std::atomic_wait_explicit( object, current, order );
-			current = std::atomic_load_explicit( object, std::memory_order_relaxed );
+			current = std::atomic_load_explicit( object, order );
 		}
 	}
 
-- 
2.43.0


From 4e91fcbd67d571339464c156a6a2f350e817593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:13 +0000
Subject: [PATCH 097/260] fix: shared_function could not hold callables that
 can only be moved

---
 include/daw/daw_shared_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_shared_function.h b/include/daw/daw_shared_function.h
index d81b79d..f8ddb5f 100644
--- a/include/daw/daw_shared_function.h
+++ b/include/daw/daw_shared_function.h
@@ -111,7 +111,7 @@ public:                                                                 \
                                                                               \
 	public:                                                                     \
 		explicit constexpr shared_function_storage( Fn fn )                       \
-		  : m_func{ DAW_FWD( fn ) } {}                                            \
+		  : m_func( std::move( fn ) ) {}                                          \
                                                                               \
 		constexpr R call( Params... params ) CallQuals                            \
 		  noexcept( IsNoExcept ) override {                                       \
-- 
2.43.0


From 570f53dde7535253a0398dae7b1027fa90626d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 098/260] fix: subspan of a const span of mutable elements did
 not compile and refused the position at the end

---
 include/daw/daw_span.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index da45637..3b54e8b 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -473,11 +473,12 @@ namespace daw {
 			return { data( ) + pos, count };
 		}
 
-		constexpr span subspan( size_type pos = 0,
-		                        size_type count = max_value<size_type> ) const {
+		constexpr span<T const>
+		subspan( size_type pos = 0,
+		         size_type count = max_value<size_type> ) const {
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  pos < size( ), "Attempt to access span past end" );
+			  pos <= size( ), "Attempt to access span past end" );
 
 			count = (daw::min)( count, size( ) - pos );
 			return { data( ) + pos, count };
-- 
2.43.0


From 2466c9e5121e665df46b5df977002475a33d47e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 099/260] fix: pop of a span of const elements could not store
 its result

---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 3b54e8b..98f10cd 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -192,8 +192,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr bool
-		pop( T &value ) noexcept( std::is_nothrow_copy_assignable_v<T> ) {
+		constexpr bool pop( value_type &value ) noexcept(
+		  std::is_nothrow_copy_assignable_v<value_type> ) {
 			if( empty( ) ) {
 				return false;
 			}
-- 
2.43.0


From 91272fb291b372c918705bcd0979e343b0aaa5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 100/260] fix: crend of a span of const elements was crbegin

---
 include/daw/daw_span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 98f10cd..543fd81 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -111,7 +111,7 @@ namespace daw {
 		}
 
 		constexpr const_reverse_iterator crend( ) const noexcept {
-			return std::make_reverse_iterator( cend( ) );
+			return std::make_reverse_iterator( cbegin( ) );
 		}
 
 		constexpr const_reference operator[]( size_type pos ) const noexcept {
-- 
2.43.0


From cdadc69b49a8dcd30a6604279ae2a05f2a235187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 101/260] fix: span::pop_front( n ) left the buffer when n is
 larger than the size

---
 include/daw/daw_span.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span.h b/include/daw/daw_span.h
index 543fd81..d55515e 100644
--- a/include/daw/daw_span.h
+++ b/include/daw/daw_span.h
@@ -175,7 +175,7 @@ namespace daw {
 
 		constexpr span<T const> pop_front( size_t n ) {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
@@ -436,7 +436,7 @@ namespace daw {
 
 		constexpr span<T> pop_front( size_t n ) noexcept {
 			auto result = subspan( 0, n );
-			remove_prefix( n );
+			remove_prefix( result.size( ) );
 			return result;
 		}
 
-- 
2.43.0


From 3476336b8dec4a2977385cb2a66b6b65bbeeda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 102/260] fix: span_writer::subspan did not compile

---
 include/daw/daw_span_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_span_writer.h b/include/daw/daw_span_writer.h
index 6a41afb..426e3ce 100644
--- a/include/daw/daw_span_writer.h
+++ b/include/daw/daw_span_writer.h
@@ -156,8 +156,9 @@ namespace daw {
 
 		constexpr span_writer subspan( std::size_t n ) const {
 			daw_ensure( n <= m_size );
-			return span_writer{ .m_first = m_first + static_cast<std::ptrdiff_t>( n ),
-			                    .m_size = m_size - n };
+			auto result = *this;
+			result.remove_prefix_unsafe( n );
+			return result;
 		}
 
 		constexpr span_writer &remove_prefix( std::size_t n ) {
-- 
2.43.0


From 34e70a2ceefe6c475d7f8ac6b98a33bb30737664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 103/260] fix: contiguous_view::subspan ended at the count from
 the start of the view, left the buffer on a large offset and did not compile
 with mutable elements

---
 include/daw/daw_contiguous_view.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 24e3749..4c2f955 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -89,9 +89,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto const sz =
-			  std::min( { count, size( ) - std::min( { size( ), offset } ) } );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			auto const first = (std::min)( size( ), offset );
+			auto const sz = (std::min)( count, size( ) - first );
+			return contiguous_view( m_first + first, sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
@@ -486,8 +486,9 @@ namespace daw {
 
 		constexpr contiguous_view
 		subspan( std::size_t offset, std::size_t count = std::size_t( -1 ) ) const {
-			auto sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return contiguous_view( data( ) + offset, data( ) + sz );
+			auto const first = (std::min)( size( ), offset );
+			auto const sz = (std::min)( count, size( ) - first );
+			return contiguous_view( m_first + first, sz );
 		}
 
 		/// This is potentially unsafe.  Decrements the start of range
-- 
2.43.0


From e024d9fa35f89998905614518b461b25cdd9ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 104/260] fix: contiguous_view::pop_front_until and
 pop_front_while with discard did not compile with mutable elements

---
 include/daw/daw_contiguous_view.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_contiguous_view.h b/include/daw/daw_contiguous_view.h
index 4c2f955..1d80309 100644
--- a/include/daw/daw_contiguous_view.h
+++ b/include/daw/daw_contiguous_view.h
@@ -374,9 +374,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -390,9 +390,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
@@ -751,9 +751,9 @@ namespace daw {
 		pop_front_until( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_until( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] constexpr contiguous_view
@@ -767,9 +767,9 @@ namespace daw {
 		pop_front_while( const_reference needle, discard_t ) noexcept {
 			auto const f = m_first;
 			remove_prefix_while( needle );
-			auto result = contiguous_view( f, m_first );
+			auto const l = m_first;
 			remove_prefix( );
-			return result;
+			return contiguous_view( f, l );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( contiguous_view const &x,
-- 
2.43.0


From d0f0a44e58d551faa6648d5e6b85df6444365bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 105/260] fix: visit did not report a valueless std::variant

---
 include/daw/daw_visit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 93b3aca..23946ee 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -93,8 +93,8 @@ namespace daw {
 		}
 
     template<typename Variant, std::enable_if_t<not has_variant_npos<Variant>, std::nullptr_t> = nullptr> 
-	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & ) {
-      return false;
+	  DAW_ATTRIB_INLINE constexpr bool is_empty( Variant const & v ) {
+      return static_cast<std::size_t>( v.index( ) ) == std::variant_npos;
 		}
 	  
 		template<typename>
-- 
2.43.0


From bd302ae79fb70707244c6231197f31722f48901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 106/260] fix: visit with a chosen result did not report a
 valueless variant

---
 include/daw/daw_visit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index 23946ee..ffa4339 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -401,7 +401,7 @@ namespace daw {
 	[[nodiscard]] constexpr Result visit( Variant &&var,
 	                                      Visitors &&...visitors ) {
 
-		if( DAW_UNLIKELY( var.index( ) < 0 ) ) {
+		if( DAW_UNLIKELY( visit_details::is_empty( var ) ) ) {
 			visit_details::visit_error( );
 		}
 		return daw::visit_details::visit_nt<0, Result>(
-- 
2.43.0


From 376d1fdaa42856718cde7f264c6ef420ce5efc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 107/260] fix: visiting an rvalue variant passed its
 alternative as an lvalue

---
 include/daw/daw_visit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_visit.h b/include/daw/daw_visit.h
index ffa4339..9ffe06d 100644
--- a/include/daw/daw_visit.h
+++ b/include/daw/daw_visit.h
@@ -57,7 +57,7 @@ namespace daw {
 			using get_nt_details::get_if;
 			auto *ptr = get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( not std::is_lvalue_reference_v<Variant> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
@@ -65,7 +65,7 @@ namespace daw {
 		} else if constexpr( get_nt_details::has_std_get_if_v<variant_t> ) {
 			auto *ptr = std::get_if<Idx>( std::addressof( var ) );
 			DAW_ASSUME( ptr != nullptr );
-			if constexpr( std::is_rvalue_reference_v<Variant> ) {
+			if constexpr( not std::is_lvalue_reference_v<Variant> ) {
 				return std::move( *ptr );
 			} else {
 				return *ptr;
-- 
2.43.0


From 9e7589933e13cc73ba164fc813cd4c19aed141a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 108/260] fix: variant_cast and can_extract read a valueless
 variant

---
 include/daw/daw_variant_cast.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_variant_cast.h b/include/daw/daw_variant_cast.h
index 6afe870..dc5973c 100644
--- a/include/daw/daw_variant_cast.h
+++ b/include/daw/daw_variant_cast.h
@@ -60,30 +60,33 @@ namespace daw {
 	constexpr T variant_cast( std::variant<Args...> &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> const &var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( var, impl::variant_visitor_t<T>{ } );
+		return daw::visit( var, impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr T variant_cast( std::variant<Args...> &&var ) {
 		static_assert( daw::traits::can_convert_from_v<T, Args...>,
 		               "T must be a convertible from type inside of variant" );
-		return daw::visit_nt( std::move( var ), impl::variant_visitor_t<T>{ } );
+		return daw::visit( std::move( var ), impl::variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> const &var ) noexcept {
-		return daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
+		return not var.valueless_by_exception( ) and
+		       daw::visit_nt( var, impl::can_variant_visitor_t<T>{ } );
 	}
 
 	template<typename T, typename... Args>
 	constexpr bool can_extract( std::variant<Args...> &&var ) noexcept {
-		return daw::visit_nt( std::move( var ), impl::can_variant_visitor_t<T>{ } );
+		return not var.valueless_by_exception( ) and
+		       daw::visit_nt( std::move( var ),
+		                      impl::can_variant_visitor_t<T>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From b01cea7d0adbebd8c97aa6d385da4b556e56fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 109/260] fix: rotate_left and rotate_right of UInt32 and
 UInt64 by 0 or the width shifted by the width

---
 include/daw/daw_uint_types.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 6b17df0..3ea5316 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -667,21 +667,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt64 rotate_left( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits & 63U ) ) |
+		       ( value >> ( ( 64U - bits ) & 63U ) );
 	}
 
 	constexpr UInt64 rotate_left( UInt64 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 64U - bits ) );
+		return ( value << ( bits & 63U ) ) |
+		       ( value >> ( ( 64U - bits ) & 63U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt64 rotate_right( UInt64 value ) {
 		static_assert( bits <= 64 );
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits & 63U ) ) |
+		       ( value << ( ( 64U - bits ) & 63U ) );
 	}
 
 	constexpr UInt64 rotate_right( UInt64 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 64U - bits ) );
+		return ( value >> ( bits & 63U ) ) |
+		       ( value << ( ( 64U - bits ) & 63U ) );
 	}
 
 	constexpr UInt32 &operator<<=( UInt32 &b, std::uint32_t shift ) noexcept {
@@ -1075,21 +1079,25 @@ namespace daw {
 	template<unsigned bits>
 	constexpr UInt32 rotate_left( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits & 31U ) ) |
+		       ( value >> ( ( 32U - bits ) & 31U ) );
 	}
 
 	constexpr UInt32 rotate_left( UInt32 value, unsigned bits ) {
-		return ( value << bits ) | ( value >> ( 32U - bits ) );
+		return ( value << ( bits & 31U ) ) |
+		       ( value >> ( ( 32U - bits ) & 31U ) );
 	}
 
 	template<unsigned bits>
 	constexpr UInt32 rotate_right( UInt32 value ) {
 		static_assert( bits <= 32 );
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits & 31U ) ) |
+		       ( value << ( ( 32U - bits ) & 31U ) );
 	}
 
 	constexpr UInt32 rotate_right( UInt32 value, unsigned bits ) {
-		return ( value >> bits ) | ( value << ( 32U - bits ) );
+		return ( value >> ( bits & 31U ) ) |
+		       ( value << ( ( 32U - bits ) & 31U ) );
 	}
 
 	constexpr UInt16 &operator<<=( UInt16 &b, std::uint16_t shift ) noexcept {
-- 
2.43.0


From bfd5277a2acbcfaffaa4c0b45d743347b3737062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 110/260] fix: _u8 and _u16 refused the largest value

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 3ea5316..b4c7886 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -3333,13 +3333,13 @@ namespace daw {
 
 	constexpr UInt16 operator""_u16( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint16_t> ) ) );
 		return static_cast<UInt16>( value );
 	}
 
 	constexpr UInt8 operator""_u8( unsigned long long value ) {
 		assert(
-		  ( value < static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
+		  ( value <= static_cast<unsigned long long>( max_value<std::uint8_t> ) ) );
 		return static_cast<UInt8>( value );
 	}
 } // namespace daw
-- 
2.43.0


From 5de9cce6bfd8a0ac8c69cbd026410a71b82b82be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 111/260] fix: negating a UInt64 or UInt32 with only the
 highest bit set overflowed

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index b4c7886..a9e5523 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -1753,7 +1753,7 @@ namespace daw {
 
 	constexpr UInt64 operator-( UInt64 value ) {
 		return static_cast<UInt64>(
-		  static_cast<std::uint64_t>( -static_cast<std::int64_t>( value ) ) );
+		  std::uint64_t{ 0 } - static_cast<std::uint64_t>( value ) );
 	}
 
 	constexpr UInt64 &operator++( UInt64 &value ) {
@@ -2137,7 +2137,7 @@ namespace daw {
 
 	constexpr UInt32 operator-( UInt32 value ) {
 		return static_cast<UInt32>(
-		  static_cast<std::uint32_t>( -static_cast<std::int32_t>( value ) ) );
+		  std::uint32_t{ 0 } - static_cast<std::uint32_t>( value ) );
 	}
 
 	constexpr UInt32 &operator++( UInt32 &value ) {
-- 
2.43.0


From 4c1163d4ca8e8184651fac5069d6ca493faf85a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 112/260] fix: round, floor and ceil were wrong for negative
 values and ceil for integers

---
 include/daw/daw_math.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index b2ca9b4..5f52f40 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -48,7 +48,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const result = static_cast<Result>( d );
+		auto const diff = d - static_cast<decltype( d )>( result );
+		return static_cast<Result>( result + ( diff >= 0.5 ) - ( diff <= -0.5 ) );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -56,7 +58,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 0.5 );
+		auto const result = static_cast<Result>( d );
+		auto const diff = d - static_cast<decltype( d )>( result );
+		return static_cast<Result>( result + ( diff >= 0.5 ) - ( diff <= -0.5 ) );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -64,7 +68,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d );
+		auto const result = static_cast<Result>( d );
+		return static_cast<Result>(
+		  result - ( d < static_cast<decltype( d )>( result ) ) );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -72,7 +78,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d );
+		auto const result = static_cast<Result>( d );
+		return static_cast<Result>(
+		  result - ( d < static_cast<decltype( d )>( result ) ) );
 	}
 
 	template<typename Result = int_for_float_t<float>>
@@ -80,7 +88,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<float>,
 		               "Argument must be a floating point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const result = static_cast<Result>( d );
+		return static_cast<Result>(
+		  result + ( d > static_cast<decltype( d )>( result ) ) );
 	}
 
 	template<typename Result = int_for_float_t<double>>
@@ -88,7 +98,9 @@ namespace daw::math {
 		static_assert( std::is_integral_v<Result>, "Result type must be integral" );
 		static_assert( std::is_floating_point_v<double>,
 		               "Argument must be a doubleing point type" );
-		return static_cast<Result>( d + 1.0 );
+		auto const result = static_cast<Result>( d );
+		return static_cast<Result>(
+		  result + ( d > static_cast<decltype( d )>( result ) ) );
 	}
 
 	template<typename T>
-- 
2.43.0


From f7548dd412149f2ea36468e7dfaadd537a8006dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 113/260] fix: math::abs overflowed on the lowest value of
 integers narrower than intmax_t and did not take unsigned lvalues

---
 include/daw/daw_math.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 5f52f40..60e262b 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -154,21 +154,16 @@ namespace daw::math {
 	                          std::nullptr_t> = nullptr>
 	[[nodiscard]] constexpr Result abs( SignedInteger v ) noexcept {
 		// This accounts for when negating the number is out of range
-		if( static_cast<intmax_t>( v ) == lowest_value<intmax_t> ) {
-			return pow2<Result>( bsizeof<intmax_t> - 1 );
-		}
-		if( v < 0 ) {
-			v = -v;
-		}
-		return static_cast<Result>( v );
+		auto const result = static_cast<uintmax_t>( v );
+		return static_cast<Result>( v < 0 ? uintmax_t{ 0 } - result : result );
 	}
 
 	template<typename UnsignedInteger,
 	         std::enable_if_t<all_true_v<std::is_integral_v<UnsignedInteger>,
 	                                     not std::is_signed_v<UnsignedInteger>>,
 	                          std::nullptr_t> = nullptr>
-	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger &&v ) noexcept {
-		return DAW_FWD( v );
+	[[nodiscard]] constexpr UnsignedInteger abs( UnsignedInteger v ) noexcept {
+		return v;
 	}
 
 	template<typename T>
-- 
2.43.0


From 0a41c1de16a05a5d84f97dc32c01d7847c537027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 114/260] fix: math::pow squared its base instead of
 multiplying by it

---
 include/daw/daw_math.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_math.h b/include/daw/daw_math.h
index 60e262b..7b92c19 100644
--- a/include/daw/daw_math.h
+++ b/include/daw/daw_math.h
@@ -179,10 +179,11 @@ namespace daw::math {
 	namespace impl {
 		template<typename T>
 		[[nodiscard]] constexpr T pow_impl( T base, size_t exponent ) noexcept {
-			for( size_t k = 0; k < exponent; ++k ) {
-				base *= base;
+			T result = base;
+			for( size_t k = 1; k < exponent; ++k ) {
+				result = static_cast<T>( result * base );
 			}
-			return base;
+			return result;
 		}
 
 	} // namespace impl
-- 
2.43.0


From 12895e20105b62bda182f2e7ed3324801e7553c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 115/260] fix: is_even was is_odd

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index b500135..a296fd6 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1022,7 +1022,7 @@ namespace daw::cxmath {
 	                                            std::nullptr_t> = nullptr>
 	[[nodiscard]] inline constexpr bool is_even( Integer i ) noexcept {
 		return ( std::make_unsigned_t<daw::remove_cvref_t<Integer>>( i ) & 1U ) ==
-		       1U;
+		       0U;
 	}
 
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
-- 
2.43.0


From 8d6b6a49e4cfe8f4c62dcadc2def648d97d96296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 116/260] fix: pow10 read past its table for the largest
 representable power

---
 include/daw/daw_cxmath.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a296fd6..a40a27c 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -385,8 +385,9 @@ namespace daw::cxmath {
 
 		template<typename Integer>
 		[[nodiscard]] constexpr auto calc_pow10s( ) noexcept {
-			std::array<Integer, daw::numeric_limits<Integer>::digits10> result{ };
-			intmax_t n = daw::numeric_limits<Integer>::digits10;
+			// 10^digits10 is the largest representable power
+			std::array<Integer, daw::numeric_limits<Integer>::digits10 + 1> result{ };
+			intmax_t n = daw::numeric_limits<Integer>::digits10 + 1;
 			while( n-- > 0 ) {
 				result[static_cast<size_t>( n )] = pow10_impl2<Integer>( n );
 			}
-- 
2.43.0


From ebcbd6530b184e19a4b07f7f91282c62e64a8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 117/260] fix: popcount of negative integers narrower than int
 counted the bits of their promotion

---
 include/daw/daw_cxmath.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index a40a27c..856a8ff 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1307,7 +1307,8 @@ namespace daw::cxmath {
 		static_assert( std::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
 		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-			return __builtin_popcount( static_cast<unsigned>( i ) );
+			return __builtin_popcount(
+			  static_cast<unsigned>( static_cast<daw::make_unsigned_t<Integer>>( i ) ) );
 		} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 			return __builtin_popcountl( static_cast<unsigned long>( i ) );
 #if defined( DAW_HAS_INT128 )
@@ -1329,7 +1330,8 @@ namespace daw::cxmath {
 	DAW_ATTRIB_INLINE int constexpr popcount( Integer i ) {
 		auto ui = [i] {
 			if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
-				return static_cast<unsigned>( i );
+				return static_cast<unsigned>(
+				  static_cast<daw::make_unsigned_t<Integer>>( i ) );
 			} else if constexpr( sizeof( Integer ) == sizeof( long ) ) {
 				return static_cast<unsigned long>( i );
 #if defined( DAW_HAS_INT128 )
-- 
2.43.0


From 40b488126bc46d1cd70fed9a5cf44c7441ae1411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 118/260] fix: count_leading_zeros of 128 bit integers called
 itself and returned 128

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 856a8ff..c678f18 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -551,9 +551,9 @@ namespace daw::cxmath {
 			return 128U;
 		}
 		auto const h =
-		  count_leading_zeros( static_cast<std::uint64_t>( v >> 64ULL ) );
+		  count_leading_zeroes( static_cast<std::uint64_t>( v >> 64ULL ) );
 		if( h == 64U ) {
-			return count_leading_zeros( static_cast<std::uint64_t>( v ) );
+			return 64U + count_leading_zeroes( static_cast<std::uint64_t>( v ) );
 		}
 		return h;
 	}
-- 
2.43.0


From 498ab889be342a75ac6c90ff19010b0960638759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 119/260] fix: copy_sign of integers never took part in
 overload resolution

---
 include/daw/daw_cxmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index c678f18..db4b96e 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1143,7 +1143,8 @@ namespace daw::cxmath {
 	         std::enable_if_t<
 	           ( (daw::is_integral_v<Number> and daw::is_integral_v<Number2>) or
 	             not( std::is_floating_point_v<Number> and
-	                  std::is_floating_point_v<Number2> ) )> = nullptr
+	                  std::is_floating_point_v<Number2> ) ),
+	           std::nullptr_t> = nullptr
 #endif
 	         >
 	[[nodiscard]] constexpr Number copy_sign( Number x, Number2 s ) noexcept {
-- 
2.43.0


From e34b8325ea370118d68acbfcea2f03ddc9c40b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 120/260] fix: cxmath::sqrt of a negative number was not NaN

---
 include/daw/daw_cxmath.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index db4b96e..0be4ba0 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1122,6 +1122,9 @@ namespace daw::cxmath {
 		default:
 			break;
 		}
+		if( r < Real{ 0 } ) {
+			return std::numeric_limits<Real>::quiet_NaN( );
+		}
 		return sqrt_fast( r );
 #else
 		if( DAW_UNLIKELY( r <= Real{ 0 } ) ) {
-- 
2.43.0


From 2b0786a682b20db33f873c4cd7bf88fddcc1aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 121/260] fix: cxmath::pow2 returned 0 for small powers that
 are representable

---
 include/daw/daw_cxmath.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 0be4ba0..30a60fe 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -781,8 +781,15 @@ namespace daw::cxmath {
 #if defined( DAW_CX_BIT_CAST )
 		if( exp >= daw::numeric_limits<Real>::max_exponent ) {
 			return daw::numeric_limits<Real>::infinity( );
-		} else if( exp <= daw::numeric_limits<Real>::min_exponent ) {
-			return Real{ 0 };
+		} else if( exp < daw::numeric_limits<Real>::min_exponent - 1 ) {
+			// Subnormal, the exponent is the position of the bit set
+			using UInt = cxmath_impl::unsigned_float_type_t<Real>;
+			std::int32_t const shift = exp - ( daw::numeric_limits<Real>::min_exponent -
+			                                   daw::numeric_limits<Real>::digits );
+			if( shift < 0 ) {
+				return Real{ 0 };
+			}
+			return DAW_BIT_CAST( Real, UInt{ 1 } << static_cast<UInt>( shift ) );
 		}
 		auto result = cxmath_impl::set_exponent_impl<Real>(
 		  cxmath_impl::unsigned_float_type_t<Real>{ 0 }, exp );
-- 
2.43.0


From f7a83d4f4f5bb88287e5a642982d8c969c376e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 122/260] fix: operations on two different natural_t types, or
 on one narrower than int, did not compile

---
 include/daw/daw_natural.h | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 6d0a803..8b23812 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -61,7 +61,7 @@ namespace daw {
 		constexpr natural_t &operator+=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_addition_operator_v<T>,
 			               "Addition operator is not valid" );
-			m_value += rhs.m_value;
+			m_value = static_cast<T>( m_value + rhs.value( ) );
 			return *this;
 		}
 
@@ -69,7 +69,7 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = validate( m_value - rhs.m_value );
+			m_value = static_cast<T>( validate( m_value - rhs.value( ) ) );
 			return *this;
 		}
 
@@ -77,7 +77,7 @@ namespace daw {
 		constexpr natural_t &operator*=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_multiplication_operator_v<T>,
 			               "Multiplication operator is not valid" );
-			m_value *= rhs.m_value;
+			m_value = static_cast<T>( m_value * rhs.value( ) );
 			return *this;
 		}
 
@@ -85,7 +85,7 @@ namespace daw {
 		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value /= rhs.m_value;
+			m_value = static_cast<T>( m_value / rhs.value( ) );
 			return *this;
 		}
 
@@ -93,7 +93,7 @@ namespace daw {
 		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value %= rhs.m_value;
+			m_value = static_cast<T>( m_value % rhs.value( ) );
 			return *this;
 		}
 
@@ -133,9 +133,8 @@ namespace daw {
 			static_assert( daw::traits::has_addition_operator_v<T, U>,
 			               "Addition operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) + std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) + static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) +
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -154,9 +153,8 @@ namespace daw {
 			static_assert( daw::traits::has_multiplication_operator_v<T, U>,
 			               "Multiplication operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) * std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) * static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) *
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -165,9 +163,8 @@ namespace daw {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) / static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) /
+			                            static_cast<U>( rhs ) };
 		}
 
 		template<typename U>
@@ -176,9 +173,8 @@ namespace daw {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-			natural_t<result_t> result{ };
-			result.m_value = static_cast<T>( lhs ) % static_cast<U>( rhs );
-			return result;
+			return natural_t<result_t>{ static_cast<T>( lhs ) %
+			                            static_cast<U>( rhs ) };
 		}
 	};
 
-- 
2.43.0


From d8bcebbb1528dccf95906753d4462411aa3d066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 123/260] fix: difference of natural numbers of unsigned type
 was not checked

---
 include/daw/daw_natural.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 8b23812..875fc7f 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -13,6 +13,8 @@
 #include "daw/daw_exception.h"
 #include "daw/daw_traits.h"
 
+#include <cstdint>
+
 namespace daw {
 	struct invalid_natural_number : public daw::exception::arithmetic_exception {
 	};
@@ -33,6 +35,14 @@ namespace daw {
 			return DAW_FWD( val );
 		}
 
+		// Both are at least 1
+		template<typename Lhs, typename Rhs>
+		static constexpr void validate_difference( Lhs lhs, Rhs rhs ) {
+			daw::exception::precondition_check<invalid_natural_number>(
+			  static_cast<std::uintmax_t>( lhs ) >
+			  static_cast<std::uintmax_t>( rhs ) );
+		}
+
 	public:
 		constexpr natural_t( ) noexcept
 		  : m_value{ 1 } {}
@@ -69,7 +79,8 @@ namespace daw {
 		constexpr natural_t &operator-=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_subtraction_operator_v<T>,
 			               "Subtraction operator is not valid" );
-			m_value = static_cast<T>( validate( m_value - rhs.value( ) ) );
+			validate_difference( m_value, rhs.value( ) );
+			m_value = static_cast<T>( m_value - rhs.value( ) );
 			return *this;
 		}
 
@@ -143,6 +154,7 @@ namespace daw {
 			static_assert( daw::traits::has_subtraction_operator_v<T, U>,
 			               "Subtraction operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) - std::declval<U>( ) );
+			validate_difference( static_cast<T>( lhs ), static_cast<U>( rhs ) );
 			return natural_t<result_t>{ static_cast<T>( lhs ) -
 			                            static_cast<U>( rhs ) };
 		}
-- 
2.43.0


From ddf300da55c0c4c49da2aa17beede2ef67c2abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:27 +0000
Subject: [PATCH 124/260] fix: quotients and remainders of natural numbers
 could be 0

---
 include/daw/daw_natural.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_natural.h b/include/daw/daw_natural.h
index 875fc7f..483044a 100644
--- a/include/daw/daw_natural.h
+++ b/include/daw/daw_natural.h
@@ -93,18 +93,18 @@ namespace daw {
 		}
 
 		template<typename U>
-		constexpr natural_t &operator/=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator/=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T>,
 			               "Division operator is not valid" );
-			m_value = static_cast<T>( m_value / rhs.value( ) );
+			m_value = static_cast<T>( validate( m_value / rhs.value( ) ) );
 			return *this;
 		}
 
 		template<typename U>
-		constexpr natural_t &operator%=( natural_t<U> const &rhs ) noexcept {
+		constexpr natural_t &operator%=( natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T>,
 			               "Modulus operator is not valid" );
-			m_value = static_cast<T>( m_value % rhs.value( ) );
+			m_value = static_cast<T>( validate( m_value % rhs.value( ) ) );
 			return *this;
 		}
 
@@ -171,7 +171,7 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator/( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_division_operator_v<T, U>,
 			               "Division operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) / std::declval<U>( ) );
@@ -181,7 +181,7 @@ namespace daw {
 
 		template<typename U>
 		friend constexpr auto operator%( natural_t const &lhs,
-		                                 natural_t<U> const &rhs ) noexcept {
+		                                 natural_t<U> const &rhs ) {
 			static_assert( daw::traits::has_modulus_operator_v<T, U>,
 			               "Modulus operator is not valid" );
 			using result_t = decltype( std::declval<T>( ) % std::declval<U>( ) );
-- 
2.43.0


From 13238af5fb45221a42b9797081735bcdb9deb565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 125/260] fix: adjust_exponent did not compile

---
 include/daw/daw_cxmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 30a60fe..5585d41 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1060,7 +1060,7 @@ namespace daw::cxmath {
 		template<
 		  typename Real, typename UInt,
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
-		constexpr Real adjust_exponent_impl( UInt u, std::int32_t exponent ) {
+		constexpr UInt adjust_exponent_impl( UInt u, std::int32_t exponent ) {
 			auto current_expoent = get_exponent_impl<Real>( u );
 			current_expoent += exponent;
 			return set_exponent_impl<Real>( u, current_expoent );
@@ -1069,7 +1069,7 @@ namespace daw::cxmath {
 	template<typename Real, std::enable_if_t<std::is_floating_point_v<Real>,
 	                                         std::nullptr_t> = nullptr>
 	constexpr Real adjust_exponent( Real r, std::int32_t exponent ) {
-		auto result = cxmath_impl::adjust_exponent_impl(
+		auto result = cxmath_impl::adjust_exponent_impl<Real>(
 		  DAW_BIT_CAST( cxmath_impl::unsigned_float_type_t<Real>, r ), exponent );
 		return DAW_BIT_CAST( Real, result );
 	}
-- 
2.43.0


From 60457897d8f899b169f7c8088c8a55cf327ccbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 126/260] fix: popcount refused 128 bit integers

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 5585d41..4b8aaac 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -1315,7 +1315,7 @@ namespace daw::cxmath {
   DAW_HAS_BUILTIN( __builtin_popcountll )
 	template<typename Integer>
 	DAW_ATTRIB_INLINE auto constexpr popcount( Integer i ) {
-		static_assert( std::is_integral_v<Integer>,
+		static_assert( daw::is_integral_v<Integer>,
 		               "Only integer types are allowed" );
 		if constexpr( sizeof( Integer ) <= sizeof( int ) ) {
 			return __builtin_popcount(
-- 
2.43.0


From 245ca48b8a237a4db099351ce7fab6cdf7848fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:11 +0000
Subject: [PATCH 127/260] fix: quotient of a uint8_t and a UInt64 dropped the
 high half of the divisor

---
 include/daw/daw_uint_types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index a9e5523..2b0b7da 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -2603,8 +2603,8 @@ namespace daw {
 	}
 
 	constexpr UInt8 operator/( std::uint8_t lhs, UInt64 rhs ) noexcept {
-		lhs = static_cast<std::uint8_t>( static_cast<std::uint32_t>( lhs ) /
-		                                 static_cast<std::uint32_t>( rhs ) );
+		lhs = static_cast<std::uint8_t>( static_cast<std::uint64_t>( lhs ) /
+		                                 static_cast<std::uint64_t>( rhs ) );
 		return static_cast<UInt8>( lhs );
 	}
 
-- 
2.43.0


From fb204480888a38e6413cb15adfef358355ffa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:27 +0000
Subject: [PATCH 128/260] fix: UInt32, UInt16 or UInt8 < std::uint64_t dropped
 the high bits of the right side

---
 include/daw/daw_uint_types.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/daw/daw_uint_types.h b/include/daw/daw_uint_types.h
index 2b0b7da..4c70e99 100644
--- a/include/daw/daw_uint_types.h
+++ b/include/daw/daw_uint_types.h
@@ -499,6 +499,21 @@ namespace daw {
 		       static_cast<std::uint64_t>( rhs );
 	}
 
+	constexpr bool operator<( UInt32 lhs, std::uint64_t rhs ) noexcept {
+		return static_cast<std::uint64_t>( lhs ) <
+		       static_cast<std::uint64_t>( rhs );
+	}
+
+	constexpr bool operator<( UInt16 lhs, std::uint64_t rhs ) noexcept {
+		return static_cast<std::uint64_t>( lhs ) <
+		       static_cast<std::uint64_t>( rhs );
+	}
+
+	constexpr bool operator<( UInt8 lhs, std::uint64_t rhs ) noexcept {
+		return static_cast<std::uint64_t>( lhs ) <
+		       static_cast<std::uint64_t>( rhs );
+	}
+
 	constexpr bool operator<( std::uint64_t lhs, UInt64 rhs ) noexcept {
 		return static_cast<std::uint64_t>( lhs ) <
 		       static_cast<std::uint64_t>( rhs );
-- 
2.43.0


From b8b8c899f42f17944ccce38fbf4825ccb9b24037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:22 +0000
Subject: [PATCH 129/260] fix: count_trailing_zeros overflowed when only the
 highest bit is set

---
 include/daw/daw_cxmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index 4b8aaac..c408eb6 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -576,7 +576,7 @@ namespace daw::cxmath {
 				return 32U;
 			}
 			std::uint32_t c = 32U;
-			v &= static_cast<std::uint32_t>( -static_cast<std::int32_t>( v ) );
+			v &= ~v + 1U;
 			if( v ) {
 				c--;
 			}
-- 
2.43.0


From 9754d134c7ea158aed173dc57ceefee9217e78b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:06 +0000
Subject: [PATCH 130/260] fix: set_exponent to 0 lost the sign and the mantissa

---
 include/daw/daw_cxmath.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/daw/daw_cxmath.h b/include/daw/daw_cxmath.h
index c408eb6..a55ea9d 100644
--- a/include/daw/daw_cxmath.h
+++ b/include/daw/daw_cxmath.h
@@ -185,9 +185,6 @@ namespace daw::cxmath {
 		  std::enable_if_t<is_matching_v<Real, UInt>, std::nullptr_t> = nullptr>
 		[[nodiscard]] inline constexpr UInt set_exponent_impl( UInt dint,
 		                                                       std::int32_t exp ) {
-			if( exp == 0 ) {
-				return DAW_BIT_CAST( UInt, Real{ 1.0 } );
-			}
 			exp += exponent_bias_v<Real>;
 			UInt new_exp = static_cast<UInt>( exp ) << exponent_start_bit_v<Real>;
 			dint &= not_exponent_mask_v<Real>;
-- 
2.43.0


From 6197cfe9b79185c06eb5ab2f91cc17ae837795f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 131/260] fix: map_iterator + and - returned the unmoved
 position, Map dropped its projection

---
 include/daw/pipelines/map.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index e46a600..3de0453 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -72,23 +72,23 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type
 		operator[]( size_type n ) const requires( RandomIterator<Iterator> ) {
-			return std::invoke( m_func, raw_get( n ) );
+			return std::invoke( m_func, std::invoke( m_projection, raw_get( n ) ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr value_type operator*( ) const {
-			return std::invoke( m_func, *m_iter );
+			return std::invoke( m_func, std::invoke( m_projection, *m_iter ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( operator*( ) );
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer operator->( ) const {
-			return pointer( std::invoke( m_func, *m_iter ) );
+			return pointer( operator*( ) );
 		}
 
 		DAW_ATTRIB_INLINE constexpr map_iterator &operator++( ) {
@@ -131,7 +131,7 @@ namespace daw::pipelines {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -139,12 +139,13 @@ namespace daw::pipelines {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			map_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( map_iterator const &rhs ) requires( RandomIterator<Iterator> ) {
+		operator-( map_iterator const &rhs ) const
+		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
 
-- 
2.43.0


From 055ceea213bb299d9bff6f6639315dd349268e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 132/260] fix: element iterators + and - returned the unmoved
 position

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 8ab4499..9adeae5 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -122,7 +122,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -130,12 +130,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			element_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( element_iterator const &rhs )
+		operator-( element_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
@@ -314,7 +314,7 @@ namespace daw::pipelines::pimpl {
 		operator+( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter += n;
+			result.m_iter += n;
 			return result;
 		}
 
@@ -322,12 +322,12 @@ namespace daw::pipelines::pimpl {
 		operator-( difference_type n ) const noexcept
 		  requires( RandomIterator<Iterator> ) {
 			elements_iterator result = *this;
-			m_iter -= n;
+			result.m_iter -= n;
 			return result;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr difference_type
-		operator-( elements_iterator const &rhs )
+		operator-( elements_iterator const &rhs ) const
 		  requires( RandomIterator<Iterator> ) {
 			return m_iter - rhs.m_iter;
 		}
-- 
2.43.0


From 99c07a2c09ba05c156fa2758588cb3a10021c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 133/260] fix: TakeWhile dropped the leading matches and kept
 the rest

---
 include/daw/pipelines/take.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index 7ca3dfd..b3ce56d 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -52,13 +52,13 @@ namespace daw::pipelines::pimpl {
 
 		[[nodiscard]] constexpr auto operator( )( auto &&value ) const {
 			if( m_trigger ) {
-				return true;
+				return false;
 			}
 			if( not m_func( DAW_FWD( value ) ) ) {
 				m_trigger = true;
-				return true;
+				return false;
 			}
-			return false;
+			return true;
 		}
 	};
 	template<typename Fn>
-- 
2.43.0


From b4db4ff6e6d237a8e69c77d423c36cf51cb71cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 134/260] fix: Take of more elements than ptrdiff_t can hold,
 from an input range, or reversed

---
 include/daw/pipelines/take.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/daw/pipelines/take.h b/include/daw/pipelines/take.h
index b3ce56d..bc186cb 100644
--- a/include/daw/pipelines/take.h
+++ b/include/daw/pipelines/take.h
@@ -32,15 +32,18 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto take_size =
-				  std::min( { range_size, static_cast<std::ptrdiff_t>( how_many ) } );
-				return range_t{ sized_iterator<iter_t>{
-				                  first, static_cast<std::size_t>( take_size ) },
-				                sized_iterator<iter_t>{ last, 0 } };
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const take_size = std::min( range_size, how_many );
+				return range_t{
+				  sized_iterator<iter_t>{ first, take_size },
+				  sized_iterator<iter_t>{
+				    std::next( first, static_cast<std::ptrdiff_t>( take_size ) ),
+				    0 } };
 			} else {
-				return range_t{ sized_iterator<iter_t>{ first, how_many },
-				                sized_iterator<iter_t>{ last, 0 } };
+				return range_t{ sized_iterator<iter_t>{
+				                  first, last, first == last ? 0 : how_many },
+				                sized_iterator<iter_t>{ last, last, 0 } };
 			}
 		}
 	};
-- 
2.43.0


From 4c8ad6d8488d163a6b2bd811d2078cf6e2240d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 135/260] fix: sized_iterator moved past its last element with
 += of more than it counts down

---
 include/daw/pipelines/sized_iterator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 26fc392..6035633 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -46,7 +46,8 @@ namespace daw::pipelines {
 		}
 
 		constexpr void advance( difference_type n ) {
-			m_count -= std::min( { n, m_count } );
+			n = std::min( { n, m_count } );
+			m_count -= n;
 			std::advance( m_iter, n );
 		}
 
-- 
2.43.0


From a1daa925b3a5b8f69cc862b5e21bd0a492c0824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 136/260] fix: Skip of more elements than ptrdiff_t can hold
 went backwards

---
 include/daw/pipelines/skip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/skip.h b/include/daw/pipelines/skip.h
index d92bce6..46c20e4 100644
--- a/include/daw/pipelines/skip.h
+++ b/include/daw/pipelines/skip.h
@@ -27,10 +27,10 @@ namespace daw::pipelines::pimpl {
 			auto last = std::end( r );
 
 			if constexpr( ForwardIterator<iter_t> ) {
-				auto const range_size = std::distance( first, last );
-				auto const skip =
-				  std::min( { static_cast<std::ptrdiff_t>( how_many ), range_size } );
-				first = std::next( first, skip );
+				auto const range_size =
+				  static_cast<std::size_t>( std::distance( first, last ) );
+				auto const skip = std::min( how_many, range_size );
+				first = std::next( first, static_cast<std::ptrdiff_t>( skip ) );
 			} else {
 				// Input
 				for( auto n = how_many; n > 0; --n ) {
-- 
2.43.0


From f1e3ee21f76edb22438718ef088d82d5b66465e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 137/260] fix: iota_iterator indexing did not compile and
 differences of narrow unsigned values wrapped

---
 include/daw/pipelines/iota.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index 6183f0f..d40ecf1 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -86,29 +86,30 @@ namespace daw::pipelines {
 		[[nodiscard]] constexpr iota_iterator
 		operator+( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value += n;
+			result += n;
 			return result;
 		}
 
 		[[nodiscard]] constexpr iota_iterator
 		operator-( difference_type n ) const noexcept {
 			iota_iterator result = *this;
-			result.value -= n;
+			result -= n;
 			return result;
 		}
 
 		[[nodiscard]] constexpr difference_type
 		operator-( iota_iterator const &i ) const {
-			return static_cast<difference_type>( value - i.value );
+			return static_cast<difference_type>( value ) -
+			       static_cast<difference_type>( i.value );
 		}
 
 		[[nodiscard]] constexpr reference operator[]( size_type n ) noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] constexpr const_reference
 		operator[]( size_type n ) const noexcept {
-			return *( value + static_cast<difference_type>( n ) );
+			return static_cast<value_type>( value + static_cast<value_type>( n ) );
 		}
 
 		[[nodiscard]] friend constexpr bool operator==( iota_iterator const &lhs,
-- 
2.43.0


From 14118bc03701d56e8f58ebaca8d5e6df10fd4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 138/260] fix: Chunk read past the end for a short last chunk

---
 include/daw/pipelines/chunk.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 246b438..faa5f3e 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -9,6 +9,7 @@
 #pragma once
 
 #include "daw/cpp_17.h"
+#include "daw/daw_algorithm.h"
 #include "daw/daw_attributes.h"
 #include "daw/daw_iterator_traits.h"
 #include "daw/daw_move.h"
@@ -106,11 +107,13 @@ namespace daw::pipelines::pimpl {
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr const_reference operator*( ) const noexcept {
-			return range_t<iterator>{ m_iter, std::next( m_iter, m_chunk_size ) };
+			return range_t<iterator>{
+			  m_iter, daw::safe_next( m_iter, ra_end( ), m_chunk_size ) };
 		}
 
 		[[nodiscard]] constexpr bool
-- 
2.43.0


From 47461cb9a2c244cc5c9ca5099cc9cb3a557c9b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 139/260] fix: Slide read past the end of a range shorter than
 the window

---
 include/daw/pipelines/slide.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index c4bae70..a0e1d0d 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -64,7 +64,19 @@ namespace daw::pipelines::pimpl {
 		explicit constexpr slide_view( Range auto &&r, std::size_t slide_size )
 		  : m_range{ DAW_FWD( r ) }
 		  , m_iter{ std::begin( m_range ) }
-		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {}
+		  , m_slide_size{ static_cast<difference_type>( slide_size ) } {
+			// There are no windows when the range is shorter than the window
+			auto first = m_iter;
+			auto const last = ra_end( );
+			auto n = m_slide_size;
+			while( n > 0 and first != last ) {
+				--n;
+				++first;
+			}
+			if( n > 0 ) {
+				m_iter = last;
+			}
+		}
 
 		[[nodiscard]] constexpr iterator &base( ) {
 			return m_iter;
-- 
2.43.0


From 60c43a42739cc586485056b33e29c309223eab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 140/260] fix: Chunk and Slide claimed the category of their
 source but are forward iterators only

---
 include/daw/pipelines/chunk.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index faa5f3e..34774f5 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -23,7 +23,7 @@ namespace daw::pipelines::pimpl {
 	struct chunk_view : range_base_t<chunk_view<R>> {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::iterator_t<std::add_const_t<R>>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<iterator>;
-- 
2.43.0


From 6ceac5b8902693f25864a4d1e9aa8b6e25f59043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 141/260] fix: Slide claimed the category of its source but is
 a forward iterator only

---
 include/daw/pipelines/slide.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index a0e1d0d..b2e8272 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -22,7 +22,7 @@ namespace daw::pipelines::pimpl {
 	struct slide_view {
 		using iterator = daw::iterator_t<R>;
 		using const_iterator = daw::const_iterator_t<R>;
-		using iterator_category = daw::range_category_t<R>;
+		using iterator_category = std::forward_iterator_tag;
 		using value_type = range_t<iterator>;
 		using reference = range_t<iterator>;
 		using const_reference = range_t<const_iterator>;
-- 
2.43.0


From 9f57eb07985f5e077b470e253f734325c2f04946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 142/260] fix: zip ranges of unequal lengths had the wrong
 distance and their end was only seen by !=

---
 include/daw/pipelines/concat.h |  9 +++++++-
 include/daw/pipelines/zip.h    | 41 ++++++++++++++++++++++++++++++----
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 09c867e..50306aa 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -130,7 +130,14 @@ namespace daw::pipelines {
 				              } ) {
 					return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
 						auto tp_first = std::begin( r ).base( );
-						auto tp_last = std::end( r ).base( );
+						auto tp_last = [&] {
+							if constexpr( requires { r.m_last.base( ); } ) {
+								// the end of a zip_view stops at the shortest range
+								return r.m_last.base( );
+							} else {
+								return std::end( r ).base( );
+							}
+						}( );
 						return concat_view{ range_t{ get<Is>( std::move( tp_first ) ),
 						                             get<Is>( std::move( tp_last ) ) }... };
 					}( std::make_index_sequence<
diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index be2e09e..8fecd0b 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -130,7 +130,7 @@ namespace daw::pipelines {
 
 		[[nodiscard]] constexpr bool
 		operator==( zip_iterator const &rhs ) const noexcept {
-			return m_iters == rhs.m_iters;
+			return not( *this != rhs );
 		}
 
 		[[nodiscard]] constexpr bool
@@ -198,7 +198,18 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::get<0>( m_iters ) - std::get<0>( rhs.m_iters );
+			// The ranges may have different lengths, the shortest one counts
+			return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
+				difference_type const diffs[] = { static_cast<difference_type>(
+				  std::get<Is>( m_iters ) - std::get<Is>( rhs.m_iters ) )... };
+				auto result = diffs[0];
+				for( auto d : diffs ) {
+					if( ( d < 0 ? -d : d ) < ( result < 0 ? -result : result ) ) {
+						result = d;
+					}
+				}
+				return result;
+			}( zip_indices( ) );
 		}
 
 		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
@@ -230,21 +241,43 @@ namespace daw::pipelines {
 		using iterator = zip_iterator<iterator_t<Ranges>...>;
 
 		iterator m_first = iterator{ };
+		// The ends of all the ranges, they may have different lengths
 		iterator m_last = iterator{ };
 
+	private:
+		// The ends at the same distance from the start, that of the shortest range
+		iterator m_end = iterator{ };
+
+		static constexpr iterator in_step( iterator const &first,
+		                                   iterator const &last ) {
+			if constexpr( RandomIterator<iterator> ) {
+				return first + ( last - first );
+			} else if constexpr( BidirectionalIterator<iterator> ) {
+				auto result = first;
+				while( result != last ) {
+					++result;
+				}
+				return result;
+			} else {
+				return last;
+			}
+		}
+
+	public:
 		explicit zip_view( ) = default;
 
 		template<Range... Rs>
 		explicit constexpr zip_view( Rs &&...rs )
 		  : m_first( ( std::begin( DAW_FWD( rs ) ) )... )
-		  , m_last( ( std::end( DAW_FWD( rs ) ) )... ) {}
+		  , m_last( ( std::end( DAW_FWD( rs ) ) )... )
+		  , m_end( in_step( m_first, m_last ) ) {}
 
 		[[nodiscard]] constexpr iterator begin( ) const {
 			return m_first;
 		}
 
 		[[nodiscard]] constexpr iterator end( ) const {
-			return m_last;
+			return m_end;
 		}
 	};
 
-- 
2.43.0


From c7914fd72a82bd102a1d4d4ca42c1bdb6359af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 143/260] fix: Enumerate gave its counter a length that
 difference_type cannot represent

---
 include/daw/pipelines/enumerate.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/enumerate.h b/include/daw/pipelines/enumerate.h
index 2279da1..c12963a 100644
--- a/include/daw/pipelines/enumerate.h
+++ b/include/daw/pipelines/enumerate.h
@@ -18,13 +18,20 @@
 #include <limits>
 
 namespace daw::pipelines::pimpl {
+	/// The largest counter value where the distance from zero is representable
+	template<typename EnumType>
+	inline constexpr EnumType max_enum_value =
+	  sizeof( EnumType ) < sizeof( std::ptrdiff_t )
+	    ? max_value<EnumType>
+	    : static_cast<EnumType>( max_value<std::ptrdiff_t> );
+
 	template<typename EnumType = std::size_t>
 	struct Enumerate_t {
 		template<Range R>
 		[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( 0, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( 0, max_enum_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
 
@@ -34,7 +41,7 @@ namespace daw::pipelines::pimpl {
 		template<Range R>
 		[[nodiscard]] constexpr auto operator( )( R &&r ) const {
 			return zip_view<iota_view<EnumType>, daw::remove_cvref_t<R>>(
-			  iota_view<EnumType>( offset, max_value<EnumType> ), DAW_FWD( r ) );
+			  iota_view<EnumType>( offset, max_enum_value<EnumType> ), DAW_FWD( r ) );
 		}
 	};
 
-- 
2.43.0


From b2e2f1fd84a8ba12888f7905adfb95bd04bfbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 144/260] fix: Flatten stopped at or dereferenced the end of
 empty inner ranges

---
 include/daw/pipelines/flatten.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 8fab762..442a77f 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -73,12 +73,20 @@ namespace daw::pipelines::pimpl {
 		DAW_ATTRIB_INLINE constexpr void inc_range( ) {
 			assert( m_range_first != raend( ) );
 			++m_range_first;
-			if( m_range_first == raend( ) ) {
-				m_cur_first = sub_iterator_t{ };
-				assert( *this == end( ) );
-			} else {
-				m_cur_first = std::begin( *m_range_first );
+			find_sub_range( );
+		}
+
+		/// Skip over empty sub ranges
+		DAW_ATTRIB_INLINE constexpr void find_sub_range( ) {
+			while( m_range_first != raend( ) ) {
+				auto &&sub_range = *m_range_first;
+				m_cur_first = std::begin( sub_range );
+				if( m_cur_first != std::end( sub_range ) ) {
+					return;
+				}
+				++m_range_first;
 			}
+			m_cur_first = sub_iterator_t{ };
 		}
 
 		DAW_ATTRIB_INLINE constexpr void inc_sub_range( ) {
@@ -98,10 +106,9 @@ namespace daw::pipelines::pimpl {
 		                           flatten_view> ) //
 		  explicit constexpr flatten_view( U &&r )
 		  : m_range( DAW_FWD( r ) )
-		  , m_range_first( rabegin( ) )
-		  , m_cur_first( m_range_first == raend( )
-		                   ? sub_iterator_t{ }
-		                   : std::begin( *m_range_first ) ) {}
+		  , m_range_first( rabegin( ) ) {
+			find_sub_range( );
+		}
 
 		[[nodiscard]] constexpr flatten_view begin( ) const {
 			return *this;
-- 
2.43.0


From 2d1d47d977b26c269ef31467954cb779480fe195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 145/260] fix: Concat dereferenced the end of empty ranges and
 lost its place in the last one

---
 include/daw/pipelines/concat.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index 50306aa..fd082ac 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -44,6 +44,17 @@ namespace daw::pipelines {
 		std::array<range_variant_t, sizeof...( Ranges )> m_ranges;
 		std::size_t m_index = 0;
 
+		/// Move on to the next range that is not exhausted, or stay at the last one
+		constexpr void skip_exhausted( ) {
+			auto const is_exhausted = []( auto const &p ) -> bool {
+				return p.first == p.second;
+			};
+			while( m_index + 1 < m_ranges.size( ) and
+			       daw::visit_nt( m_ranges[m_index], is_exhausted ) ) {
+				++m_index;
+			}
+		}
+
 		template<std::size_t... Is>
 		static constexpr std::array<range_variant_t, sizeof...( Ranges )>
 		get_iter_pair( std::index_sequence<Is...>,
@@ -60,13 +71,15 @@ namespace daw::pipelines {
 		explicit constexpr concat_view( Ranges... ranges )
 		  : m_ranges(
 		      get_iter_pair( std::make_index_sequence<sizeof...( Ranges )>{ },
-		                     std::tuple{ std::move( ranges )... } ) ) {}
+		                     std::tuple{ std::move( ranges )... } ) ) {
+			skip_exhausted( );
+		}
 
-		concat_view begin( ) const {
+		constexpr concat_view begin( ) const {
 			return *this;
 		}
 
-		concat_view end( ) const {
+		constexpr concat_view end( ) const {
 			auto result = *this;
 			result.m_index = m_ranges.size( ) - 1;
 			for( auto &r : result.m_ranges ) {
@@ -80,10 +93,8 @@ namespace daw::pipelines {
 		constexpr concat_view &operator++( ) {
 			daw::visit_nt( m_ranges[m_index], [&]( auto &p ) {
 				++p.first;
-				if( p.first == p.second ) {
-					++m_index;
-				}
 			} );
+			skip_exhausted( );
 			return *this;
 		}
 
-- 
2.43.0


From ed9c9495fafd8c3a7536ba706097e8bfd43dd341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 146/260] fix: Split by a range skipped one element instead of
 the whole delimiter

---
 include/daw/pipelines/split.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 2a2fb56..8e355da 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -34,8 +34,8 @@ namespace daw::pipelines {
 		struct delimiter_length_t<Delimiter> {
 			std::ptrdiff_t length;
 
-			constexpr std::ptrdiff_t size( ) {
-				return 1;
+			constexpr std::ptrdiff_t size( ) const {
+				return length;
 			}
 
 			constexpr delimiter_length_t( Delimiter const &d )
-- 
2.43.0


From 0352dc88fcf7f2fe28787f15283a103827f279ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 147/260] fix: Unique of an lvalue range did not compile

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 7483a04..81391bb 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -98,7 +98,7 @@ namespace daw::pipelines {
 		}
 	};
 	template<typename I>
-	unique_view( I ) -> unique_view<I>;
+	unique_view( I, I ) -> unique_view<I>;
 
 	template<Range R>
 	struct unique_range {
@@ -150,7 +150,7 @@ namespace daw::pipelines {
 				if constexpr( std::is_rvalue_reference_v<decltype( r )> ) {
 					return unique_range{ DAW_FWD( r ) };
 				} else {
-					return unique_view{ DAW_FWD( r ) };
+					return unique_view{ std::begin( r ), std::end( r ) };
 				}
 			}
 		};
-- 
2.43.0


From 9900f52ce119e1cccb3b7897f58cbefc473324bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 148/260] fix: Filter with a projection did not compile and
 Filter of a single value returned the predicate result

---
 include/daw/pipelines/filter.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/pipelines/filter.h b/include/daw/pipelines/filter.h
index f8ead4c..ae92c08 100644
--- a/include/daw/pipelines/filter.h
+++ b/include/daw/pipelines/filter.h
@@ -47,7 +47,7 @@ namespace daw::pipelines {
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
 		filter( auto const &v ) const {
-			return std::invoke( m_func, m_projection( v ) );
+			return std::invoke( m_func, std::invoke( m_projection, v ) );
 		}
 
 	public:
@@ -147,8 +147,8 @@ namespace daw::pipelines {
 				static_assert(
 				  std::convertible_to<std::invoke_result_t<Fn, projected_t>, bool>,
 				  "Filter requires an invokable function that returns a bool" );
-				return filter_view<iterator_t<R>, Fn>( std::begin( r ), std::end( r ),
-				                                       m_func, m_projection );
+				return filter_view<iterator_t<R>, Fn, Projection>(
+				  std::begin( r ), std::end( r ), m_func, m_projection );
 			}
 
 			template<typename Value>
@@ -159,9 +159,9 @@ namespace daw::pipelines {
 				static_assert(
 				  std::is_invocable_r_v<bool, Fn, projected_t>,
 				  "Filter requires an invokable function that returns a bool" );
-				using result_t = daw::remove_cvref_t<std::invoke_result_t<Fn, Value>>;
+				using result_t = daw::remove_cvref_t<Value>;
 				if( std::invoke( m_func, std::invoke( m_projection, v ) ) ) {
-					return std::optional<result_t>( std::invoke( m_func, DAW_FWD( v ) ) );
+					return std::optional<result_t>( DAW_FWD( v ) );
 				}
 				return std::optional<result_t>( );
 			}
-- 
2.43.0


From 05b134382f87a2ee461aa14f9528dcbc4dadd334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 149/260] fix: SumKahanBabushkaNeumaier with a projection did
 not compile

---
 include/daw/pipelines/numeric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/numeric.h b/include/daw/pipelines/numeric.h
index 248fa92..b92e0ba 100644
--- a/include/daw/pipelines/numeric.h
+++ b/include/daw/pipelines/numeric.h
@@ -94,7 +94,7 @@ namespace daw::pipelines {
 						if constexpr( std::is_same_v<Projection, IdentityFn_t> ) {
 							return cur_v;
 						} else {
-							return std::invoke( cur_v, m_projection );
+							return std::invoke( m_projection, cur_v );
 						}
 					}( );
 					auto t = sum + input;
-- 
2.43.0


From 5dc57821447855cdc5e6bedcbe0c44942011b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 150/260] fix: Sort, Max, Min and MinMax could not be given a
 comparison

---
 include/daw/pipelines/algorithm.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/algorithm.h b/include/daw/pipelines/algorithm.h
index 73a1e87..1b48329 100644
--- a/include/daw/pipelines/algorithm.h
+++ b/include/daw/pipelines/algorithm.h
@@ -32,7 +32,8 @@ namespace daw::pipelines {
 
 			[[nodiscard]] DAW_CPP23_STATIC_CALL_OP constexpr auto
 			operator( )( auto &&compare ) DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Sort_t{ DAW_FWD( compare ) };
+				return Sort_t<std::remove_cvref_t<decltype( compare )>>{
+				  DAW_FWD( compare ) };
 			}
 
 			[[nodiscard]] constexpr decltype( auto )
@@ -65,9 +66,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Max_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Max_t<std::remove_cvref_t<C>, std::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -99,9 +101,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return Min_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return Min_t<std::remove_cvref_t<C>, std::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
@@ -133,9 +136,10 @@ namespace daw::pipelines {
 			requires( not Range<C> ) //
 			  [[nodiscard]] DAW_CPP23_STATIC_CALL_OP
 			  constexpr auto operator( )( C &&compare,
-			                              P &&projection = Projection{ } )
+			                              P &&projection = P{ } )
 			    DAW_CPP23_STATIC_CALL_OP_CONST {
-				return MinMax_t{ DAW_FWD( compare ), DAW_FWD( projection ) };
+				return MinMax_t<std::remove_cvref_t<C>, std::remove_cvref_t<P>>{
+				  DAW_FWD( compare ), DAW_FWD( projection ) };
 			}
 
 			[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
-- 
2.43.0


From 70ad4a99a0690d5cbb35f14b7baece1b35cf2870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:05 +0000
Subject: [PATCH 151/260] fix: the difference of two ranges had the wrong sign

---
 include/daw/pipelines/range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/pipelines/range.h b/include/daw/pipelines/range.h
index 7f7e20d..dddaa55 100644
--- a/include/daw/pipelines/range.h
+++ b/include/daw/pipelines/range.h
@@ -152,7 +152,7 @@ namespace daw::pipelines {
 
 		constexpr difference_type operator-( range_t const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
-			return std::distance( first, rhs.first );
+			return std::distance( rhs.first, first );
 		}
 
 		constexpr bool operator==( range_t const &rhs ) const = default;
-- 
2.43.0


From 5db0e9ff94ace15c6584dccdf50dfbedcf3f97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 152/260] fix: safe_next did not compile for forward iterators

---
 include/daw/daw_algorithm.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_algorithm.h b/include/daw/daw_algorithm.h
index 2c678e1..28a8e9f 100644
--- a/include/daw/daw_algorithm.h
+++ b/include/daw/daw_algorithm.h
@@ -97,7 +97,11 @@ namespace daw {
 			for( ; it != last and dist > 0; --dist, ++it ) {}
 
 			// Move it backwards towards first
-			for( ; it != first and dist < 0; ++dist, --it ) {}
+			if constexpr( std::is_base_of_v<std::bidirectional_iterator_tag,
+			                                typename std::iterator_traits<
+			                                  Iterator>::iterator_category> ) {
+				for( ; it != first and dist < 0; ++dist, --it ) {}
+			}
 		}
 
 		template<
-- 
2.43.0


From 727bfb364e3ef2dcf134594e233665e26713b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 153/260] fix: Element and Elements did not compile after
 another stage

---
 include/daw/pipelines/elements.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 9adeae5..1bd8d19 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -182,8 +182,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr element_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -202,7 +202,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return element_view<daw::remove_rvalue_ref_t<R>, Index>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
@@ -375,8 +375,8 @@ namespace daw::pipelines::pimpl {
 
 		template<daw::Range U>
 		explicit constexpr elements_view( U &&r )
-		  : m_first( std::begin( daw::forward_lvalue<U>( r ) ) )
-		  , m_last( std::end( daw::forward_lvalue<U>( r ) ) ) {}
+		  : m_first( std::begin( r ) )
+		  , m_last( std::end( r ) ) {}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr iterator_first_t begin( ) const {
 			return m_first;
@@ -395,7 +395,7 @@ namespace daw::pipelines::pimpl {
 		DAW_CPP23_STATIC_CALL_OP constexpr auto
 		operator( )( R &&r ) DAW_CPP23_STATIC_CALL_OP_CONST {
 			return elements_view<daw::remove_rvalue_ref_t<R>, Indices...>{
-			  daw::forward_lvalue<R>( r ) };
+			  DAW_FWD( r ) };
 		}
 	};
 
-- 
2.43.0


From 6a6b8e8b892ac5e7722ee2c8c8f1155c386cd02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 154/260] fix: Split did not compile with a delimiter passed as
 a variable

---
 include/daw/pipelines/split.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 8e355da..473b284 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -215,8 +215,12 @@ namespace daw::pipelines {
 			[[nodiscard]] constexpr auto operator( )( R &&r ) const {
 				static_assert( std::invocable<Projection, range_value_t<R>>,
 				               "Projection must be invocable with range_value_t<R>" );
-				return split_view<R, Delimiter, Projection>( DAW_FWD( r ), m_delimiter,
-				                                             m_projection );
+				// Arrays cannot be copied and are kept by reference
+				using delimiter_t = std::conditional_t<
+				  std::is_array_v<std::remove_reference_t<Delimiter>>, Delimiter,
+				  daw::remove_cvref_t<Delimiter>>;
+				return split_view<R, delimiter_t, Projection>(
+				  DAW_FWD( r ), m_delimiter, m_projection );
 			}
 		};
 		template<typename F>
-- 
2.43.0


From 7844a1588bf1efed692f6850670b1dab2ffc1a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 155/260] fix: split iterators at the same position compared
 unequal when only one was dereferenced

---
 include/daw/pipelines/split.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index 473b284..ea0ec8c 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -119,8 +119,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr bool operator==( split_view_iterator const &rhs ) const {
-			return m_first == rhs.m_first and m_last == rhs.m_last and
-			       m_next == rhs.m_next;
+			return m_first == rhs.m_first and m_last == rhs.m_last;
 		}
 		constexpr bool operator!=( split_view_iterator const &rhs ) const = default;
 	};
-- 
2.43.0


From 1e6456fe76426197a6a8b59b9a85809a4199aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:55 +0000
Subject: [PATCH 156/260] fix: the owned result of a stage was destroyed before
 the stages after the next one used it

---
 include/daw/pipelines/pipeline.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/daw/pipelines/pipeline.h b/include/daw/pipelines/pipeline.h
index 8d44199..a5ba6da 100644
--- a/include/daw/pipelines/pipeline.h
+++ b/include/daw/pipelines/pipeline.h
@@ -38,12 +38,13 @@ namespace daw::pipelines::pimpl {
 	[[nodiscard]] DAW_ATTRIB_FLATINLINE constexpr auto
 	pipeline( std::tuple<Ts...> const &functions, R &&r, Ranges &&...ranges ) {
 		using std::get;
-		if constexpr( Idx > 0 ) {
+		if constexpr( Idx + 1 < sizeof...( Ts ) ) {
+			// Later stages may refer to this result, keep it until they have run
 			auto &&param =
-			  pipeline<Idx - 1>( functions, DAW_FWD( r ), DAW_FWD( ranges )... );
-			return get<Idx>( functions )( DAW_FWD( param ) );
+			  get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return pipeline<Idx + 1>( functions, DAW_FWD( param ) );
 		} else {
-			return get<0>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
+			return get<Idx>( functions )( DAW_FWD( r ), DAW_FWD( ranges )... );
 		}
 	}
 
@@ -103,7 +104,7 @@ namespace daw::pipelines::pimpl {
 namespace daw::pipelines {
 	template<Range R, typename... Fns>
 	DAW_ATTRIB_FLATTEN constexpr auto pipeline( R &&r, Fns &&...fns ) {
-		return pimpl::pipeline<sizeof...( Fns ) - 1>(
+		return pimpl::pipeline<0>(
 		  pimpl::make_tpfns<true>( DAW_FWD( fns )... ),
 		  pimpl::fix_range( DAW_FWD( r ) ) );
 	}
@@ -117,9 +118,8 @@ namespace daw::pipelines {
 		    Range auto &&r, Range auto &&...rs ) {
 			  // We are going to forward refs to the current tuple to ensure it is
 			  // only stored here if there are large callables passed
-			  using tp_size = daw::constant<std::tuple_size_v<DAW_TYPEOF( tpfns )>>;
 			  return [&]<std::size_t... Is>( std::index_sequence<Is...> ) {
-				  return pimpl::pipeline<tp_size::value - 1>(
+				  return pimpl::pipeline<0>(
 				    tpfns,
 				    // std::forward_as_tuple( std::get<Is>( tpfns )... ),
 				    pimpl::fix_range( DAW_FWD( r ) ),
-- 
2.43.0


From bd781497bbeecc535fe069dd420cc96b586f9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:21 +0000
Subject: [PATCH 157/260] fix: Element had a reference as value type and read a
 destroyed temporary

---
 include/daw/pipelines/elements.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/elements.h b/include/daw/pipelines/elements.h
index 1bd8d19..3409bf0 100644
--- a/include/daw/pipelines/elements.h
+++ b/include/daw/pipelines/elements.h
@@ -19,9 +19,9 @@ namespace daw::pipelines::pimpl {
 	template<Iterator Iterator, std::size_t Index>
 	struct element_iterator {
 		using iterator_category = daw::iter_category_t<Iterator>;
-		using value_type =
+		using reference =
 		  std::tuple_element_t<Index, daw::iter_reference_t<Iterator>>;
-		using reference = value_type;
+		using value_type = daw::remove_cvref_t<reference>;
 		using const_reference =
 		  std::tuple_element_t<Index, daw::iter_const_reference_t<Iterator>>;
 		using pointer = arrow_proxy<reference>;
@@ -39,7 +39,7 @@ namespace daw::pipelines::pimpl {
 
 	private:
 		template<typename I>
-		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr decltype( auto )
+		[[nodiscard]] DAW_ATTRIB_INLINE static constexpr reference
 		raw_get( I &&iter ) {
 			return std::get<Index>( *DAW_FWD( iter ) );
 		}
-- 
2.43.0


From ad48ab9c7780af4200b425a60f92c610dd561ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 158/260] fix: iterators of MapApply and Clamp could not be
 assigned

---
 include/daw/pipelines/map.h | 39 ++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index 3de0453..dbe3d59 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -222,6 +222,28 @@ namespace daw::pipelines {
 	  map_view( R &&, F, P ) -> map_view<daw::remove_rvalue_ref_t<R>, F, P>;
 
 	namespace pimpl {
+		// Function objects instead of lambdas with captures so that the iterators
+		// holding them are assignable
+		template<typename Fn>
+		struct map_apply_fn_t {
+			DAW_NO_UNIQUE_ADDRESS Fn m_func;
+
+			constexpr decltype( auto ) operator( )( auto &&tp ) const {
+				return std::apply( m_func, tp );
+			}
+		};
+
+		template<typename Value, typename T, typename Compare>
+		struct clamp_fn_t {
+			T lo;
+			T hi;
+			DAW_NO_UNIQUE_ADDRESS Compare compare;
+
+			constexpr Value operator( )( Value const &v ) const {
+				return std::clamp<Value>( v, lo, hi, compare );
+			}
+		};
+
 		template<typename Fn, typename Projection = std::identity>
 		struct Map_t {
 			DAW_NO_UNIQUE_ADDRESS Fn m_func;
@@ -274,10 +296,8 @@ namespace daw::pipelines {
 				static_assert( traits::is_applicable_v<Fn, range_reference_t<R>>,
 				               "MapApply requires the function to be able to be called "
 				               "with apply and the range_reference_t" );
-				auto func = m_func;
-				return map_view{ DAW_FWD( r ), [=]( auto &&tp ) {
-					                return std::apply( func, tp );
-				                } };
+				return map_view{ DAW_FWD( r ),
+				                 map_apply_fn_t<daw::remove_cvref_t<Fn>>{ m_func } };
 			}
 		};
 		template<typename Fn>
@@ -291,22 +311,19 @@ namespace daw::pipelines {
 
 			template<typename R>
 			[[nodiscard]] constexpr auto operator( )( R &&r ) const {
-				auto h = hi;
-				auto l = lo;
-				auto c = compare;
 				if constexpr( Range<R> ) {
 					using value_type = range_value_t<R>;
 					static_assert( std::convertible_to<T, value_type>,
 					               "Clamp requires a lo/hi values convertible to the "
 					               "range value type" );
-					return map_view{ DAW_FWD( r ), [=]( value_type const &v ) {
-						                return std::clamp( v, l, h, c );
-					                } };
+					using fn_t = clamp_fn_t<value_type, daw::remove_cvref_t<T>,
+					                        daw::remove_cvref_t<Compare>>;
+					return map_view{ DAW_FWD( r ), fn_t{ lo, hi, compare } };
 				} else {
 					static_assert(
 					  std::convertible_to<T, daw::remove_cvref_t<R>>,
 					  "Clamp requires a lo/hi values convertible to the value type" );
-					return std::clamp( r, l, h, c );
+					return std::clamp<daw::remove_cvref_t<R>>( r, lo, hi, compare );
 				}
 			}
 		};
-- 
2.43.0


From 9a726972928043bc11517a0d7087ff97ff72af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 159/260] fix: iterators of Every could not be assigned

---
 include/daw/pipelines/every.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/daw/pipelines/every.h b/include/daw/pipelines/every.h
index 7c22d7b..284b80d 100644
--- a/include/daw/pipelines/every.h
+++ b/include/daw/pipelines/every.h
@@ -12,20 +12,28 @@
 #include <cstddef>
 
 namespace daw::pipelines::pimpl {
+	// Function object instead of a lambda with captures so that the iterators
+	// holding it are assignable
+	struct every_fn_t {
+		std::size_t select_every;
+		std::size_t n;
+
+		constexpr bool operator( )( auto const & ) {
+			if( n >= select_every ) {
+				n = 1;
+				return true;
+			}
+			++n;
+			return false;
+		}
+	};
+
 	struct Every_t {
 		std::size_t m_select_every;
 
 		[[nodiscard]] constexpr auto operator( )( Range auto &&r ) const {
 			return filter_view{ std::begin( DAW_FWD( r ) ), std::end( DAW_FWD( r ) ),
-			                    [select_every = m_select_every,
-			                     n = m_select_every]( auto const & ) mutable {
-				                    if( n >= select_every ) {
-					                    n = 1;
-					                    return true;
-				                    }
-				                    ++n;
-				                    return false;
-			                    } };
+			                    every_fn_t{ m_select_every, m_select_every } };
 		}
 	};
 } // namespace daw::pipelines::pimpl
-- 
2.43.0


From c012cb2d04535337fa0128349756fc74b49e9fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 160/260] fix: iterators of Chunk of an lvalue range could not
 be assigned

---
 include/daw/pipelines/chunk.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/chunk.h b/include/daw/pipelines/chunk.h
index 34774f5..0f3a7b4 100644
--- a/include/daw/pipelines/chunk.h
+++ b/include/daw/pipelines/chunk.h
@@ -31,7 +31,12 @@ namespace daw::pipelines::pimpl {
 		using i_am_a_daw_chunk_view_iterator_class = void;
 
 	private:
-		using m_range_t = daw::remove_cvrvref_t<R>;
+		// A range passed by reference is not owned, and a reference member would
+		// not allow for assignment
+		using m_range_t =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		                     daw::remove_cvrvref_t<R>>;
 		m_range_t m_range{ };
 		iterator m_iter{ };
 		difference_type m_chunk_size = 1;
-- 
2.43.0


From 7a9089669fc5adbd2205dbb995a522f9111579ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:30 +0000
Subject: [PATCH 161/260] fix: iterators of Slide of an lvalue range could not
 be assigned

---
 include/daw/pipelines/slide.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/slide.h b/include/daw/pipelines/slide.h
index b2e8272..e824422 100644
--- a/include/daw/pipelines/slide.h
+++ b/include/daw/pipelines/slide.h
@@ -30,7 +30,12 @@ namespace daw::pipelines::pimpl {
 		using i_am_a_daw_slide_view_iterator_class = void;
 
 	private:
-		using m_range_t = daw::remove_cvrvref_t<R>;
+		// A range passed by reference is not owned, and a reference member would
+		// not allow for assignment
+		using m_range_t =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		                     daw::remove_cvrvref_t<R>>;
 		m_range_t m_range{ };
 		iterator m_iter{ };
 		difference_type m_slide_size = 1;
-- 
2.43.0


From 8183a21ada6ba15682879c2a99483dfe2823bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:30 +0000
Subject: [PATCH 162/260] fix: iterators of Flatten of an lvalue range could
 not be assigned

---
 include/daw/pipelines/flatten.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 442a77f..2ac289b 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -49,7 +49,12 @@ namespace daw::pipelines::pimpl {
 	private:
 		using end_t = flatten_view_end_t<R>;
 
-		using m_range_t = daw::remove_cvrvref_t<R>;
+		// A range passed by reference is not owned, and a reference member would
+		// not allow for assignment
+		using m_range_t =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		                     daw::remove_cvrvref_t<R>>;
 		mutable m_range_t m_range;
 		iterator_t m_range_first{ };
 		sub_iterator_t m_cur_first{ };
-- 
2.43.0


From dcb16c12fda44855dcecc2084055f8cc3fc1c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:30 +0000
Subject: [PATCH 163/260] fix: Flatten had an end that no stage but a range for
 could use

---
 include/daw/pipelines/flatten.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/daw/pipelines/flatten.h b/include/daw/pipelines/flatten.h
index 2ac289b..ab81bc5 100644
--- a/include/daw/pipelines/flatten.h
+++ b/include/daw/pipelines/flatten.h
@@ -36,7 +36,7 @@ namespace daw::pipelines::pimpl {
 	};
 
 	template<ForwardRange R>
-	struct flatten_view : range_base_t<flatten_view<R>, flatten_view_end_t<R>> {
+	struct flatten_view : range_base_t<flatten_view<R>> {
 		using iterator_t = daw::iterator_t<R>;
 		using sub_iterator_t = daw::iterator_t<daw::iter_value_t<iterator_t>>;
 		using iterator_category = std::forward_iterator_tag;
@@ -119,8 +119,11 @@ namespace daw::pipelines::pimpl {
 			return *this;
 		}
 
-		[[nodiscard]] constexpr end_t end( ) const {
-			return end_t{ raend( ) };
+		[[nodiscard]] constexpr flatten_view end( ) const {
+			auto result = *this;
+			result.m_range_first = raend( );
+			result.m_cur_first = sub_iterator_t{ };
+			return result;
 		}
 
 		DAW_ATTRIB_NOINLINE constexpr flatten_view &operator++( ) {
-- 
2.43.0


From c4f1f29a29c7a1caa545890b20f70970e4b38351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:30 +0000
Subject: [PATCH 164/260] fix: CacheLast iterators could not be dereferenced
 when const

---
 include/daw/pipelines/cache_last_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index 7250bc2..ae114bd 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -30,7 +30,7 @@ namespace daw::pipelines {
 
 	private:
 		It m_iterator = It{ };
-		std::optional<value_type> m_cached = std::nullopt;
+		mutable std::optional<value_type> m_cached = std::nullopt;
 
 	public:
 		cache_last_iterator( ) = default;
@@ -38,18 +38,18 @@ namespace daw::pipelines {
 		explicit constexpr cache_last_iterator( It i )
 		  : m_iterator( std::move( i ) ) {}
 
-		constexpr reference value( ) {
+		constexpr reference value( ) const {
 			if( not m_cached ) {
 				m_cached.emplace( *m_iterator );
 			}
 			return *m_cached;
 		}
 
-		constexpr reference operator*( ) {
+		constexpr reference operator*( ) const {
 			return value( );
 		}
 
-		constexpr pointer operator->( ) {
+		constexpr pointer operator->( ) const {
 			return pointer{ value( ) };
 		}
 
-- 
2.43.0


From 8b198ead55b189d466e8e493a5aaa9a2ff95d6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 165/260] fix: zip iterators could not be compared when const
 or below another stage

---
 include/daw/pipelines/zip.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/zip.h b/include/daw/pipelines/zip.h
index 8fecd0b..73589a6 100644
--- a/include/daw/pipelines/zip.h
+++ b/include/daw/pipelines/zip.h
@@ -14,6 +14,7 @@
 
 #include <cstddef>
 #include <tuple>
+#include <compare>
 #include <utility>
 
 namespace daw::pipelines {
@@ -212,25 +213,33 @@ namespace daw::pipelines {
 			}( zip_indices( ) );
 		}
 
-		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters < rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator<=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters <= rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters > rhs.m_iters;
 		}
 
-		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs )
+		[[nodiscard]] constexpr bool operator>=( zip_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_iters >= rhs.m_iters;
 		}
+
+		// clang-format off
+		[[nodiscard]] constexpr std::strong_ordering
+		operator<=>( zip_iterator const &rhs ) const
+		  requires( RandomIteratorTag<iterator_category> ) {
+			return ( *this - rhs ) <=> 0;
+		}
+		// clang-format on
 	};
 	template<Iterator... Iterators>
 	zip_iterator( Iterators... ) -> zip_iterator<Iterators...>;
-- 
2.43.0


From 24e3f512f312dcb7ead38ea838995cbc094cdfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 166/260] fix: iota iterators could not be compared below
 another stage

---
 include/daw/pipelines/iota.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/daw/pipelines/iota.h b/include/daw/pipelines/iota.h
index d40ecf1..c15d812 100644
--- a/include/daw/pipelines/iota.h
+++ b/include/daw/pipelines/iota.h
@@ -14,6 +14,7 @@
 #include "daw/iterator/daw_arrow_proxy.h"
 #include "daw/pipelines/range_base.h"
 
+#include <compare>
 #include <cstddef>
 #include <iterator>
 #include <type_traits>
@@ -141,6 +142,13 @@ namespace daw::pipelines {
 		                                                iota_iterator const &rhs ) {
 			return lhs.value >= rhs.value;
 		}
+
+		// clang-format off
+		[[nodiscard]] friend constexpr auto operator<=>( iota_iterator const &lhs,
+		                                                 iota_iterator const &rhs ) {
+			return lhs.value <=> rhs.value;
+		}
+		// clang-format on
 	};
 
 	template<typename T>
-- 
2.43.0


From c9003c600e3a34fbc8dfb303c2eaf9d3e20e3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 167/260] fix: sized iterators could not be compared when const
 or below another stage

---
 include/daw/pipelines/sized_iterator.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/daw/pipelines/sized_iterator.h b/include/daw/pipelines/sized_iterator.h
index 6035633..2861714 100644
--- a/include/daw/pipelines/sized_iterator.h
+++ b/include/daw/pipelines/sized_iterator.h
@@ -14,6 +14,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <compare>
 #include <iterator>
 
 namespace daw::pipelines {
@@ -155,28 +156,36 @@ namespace daw::pipelines {
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator<( sized_iterator const &rhs )
+		operator<( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count > rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator<=( sized_iterator const &rhs )
+		operator<=( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count >= rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator>( sized_iterator const &rhs )
+		operator>( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count < rhs.m_count;
 		}
 
 		[[nodiscard]] DAW_ATTRIB_INLINE constexpr bool
-		operator>=( sized_iterator const &rhs )
+		operator>=( sized_iterator const &rhs ) const
 		  requires( RandomIteratorTag<iterator_category> ) {
 			return m_count <= rhs.m_count;
 		}
+
+		// clang-format off
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr std::strong_ordering
+		operator<=>( sized_iterator const &rhs ) const
+		  requires( RandomIteratorTag<iterator_category> ) {
+			return rhs.m_count <=> m_count;
+		}
+		// clang-format on
 	};
 
 	template<InputIterator Iterator>
-- 
2.43.0


From 163ee28e27f092446fe4f1c5475ee1a59625eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 168/260] fix: views over Map of an lvalue range were not
 default constructible or assignable

---
 include/daw/pipelines/map.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/map.h b/include/daw/pipelines/map.h
index dbe3d59..9959c01 100644
--- a/include/daw/pipelines/map.h
+++ b/include/daw/pipelines/map.h
@@ -14,6 +14,7 @@
 #include "daw/daw_typeof.h"
 #include "daw/iterator/daw_arrow_proxy.h"
 #include "daw/pipelines/pipeline_traits.h"
+#include "daw/pipelines/range.h"
 #include "daw/pipelines/range_base.h"
 
 #include <cstddef>
@@ -186,7 +187,13 @@ namespace daw::pipelines {
 
 		using value_type = daw::iter_value_t<iterator_first_t>;
 
-		daw::remove_rvalue_ref_t<R> m_range{ };
+		// A range passed by reference is not owned, and a reference member would
+		// not allow for assignment
+		using m_range_t =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		                     daw::remove_rvalue_ref_t<R>>;
+		m_range_t m_range{ };
 		iterator_first_t m_first{ };
 		iterator_last_t m_last{ };
 
-- 
2.43.0


From 7f771bc81c2de3caa8f094018a3da0be58ce2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:11 +0000
Subject: [PATCH 169/260] fix: views over Split of an lvalue range were not
 default constructible or assignable

---
 include/daw/pipelines/split.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index ea0ec8c..a4311b9 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -133,7 +133,12 @@ namespace daw::pipelines {
 		using i_am_a_daw_split_view_class = void;
 
 	private:
-		using range_type = daw::remove_rvalue_ref_t<R>;
+		// A range passed by reference is not owned, and a reference member would
+		// not allow for assignment
+		using range_type =
+		  std::conditional_t<std::is_lvalue_reference_v<R>,
+		                     range_t<daw::iterator_t<R>, daw::iterator_end_t<R>>,
+		                     daw::remove_rvalue_ref_t<R>>;
 		using iterator =
 		  split_view_iterator<iterator_t<range_type>, iterator_end_t<range_type>,
 		                      Delimiter, Projection>;
-- 
2.43.0


From 011e092d636999eb620d09d83cfcdc7cda8d0743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:48 +0000
Subject: [PATCH 170/260] fix: advancing a split iterator twice without
 dereferencing it asserted

---
 include/daw/pipelines/split.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/pipelines/split.h b/include/daw/pipelines/split.h
index a4311b9..eaf346b 100644
--- a/include/daw/pipelines/split.h
+++ b/include/daw/pipelines/split.h
@@ -97,6 +97,7 @@ namespace daw::pipelines {
 		}
 
 		constexpr split_view_iterator &operator++( ) {
+			increment_iterator( );
 			assert( m_next );
 			m_first = std::move( *m_next );
 			m_next.reset( );
-- 
2.43.0


From b0dcdd999eea64a136ed239616d0e665b6614587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:01 +0000
Subject: [PATCH 171/260] fix: CacheLast cannot be reversed, its iterators
 return references into themselves

---
 include/daw/pipelines/cache_last_view.h | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/daw/pipelines/cache_last_view.h b/include/daw/pipelines/cache_last_view.h
index ae114bd..2d71e68 100644
--- a/include/daw/pipelines/cache_last_view.h
+++ b/include/daw/pipelines/cache_last_view.h
@@ -24,9 +24,11 @@ namespace daw::pipelines {
 		using value_type = std::remove_reference_t<daw::iter_value_t<It>>;
 		using reference = value_type &;
 		using pointer = daw::arrow_proxy<value_type>;
+		// the element referred to lives in this iterator, so a reverse_iterator
+		// would return a reference into a destroyed one
 		using iterator_category =
 		  daw::common_iterator_category_t<daw::iter_category_t<It>,
-		                                  std::bidirectional_iterator_tag>;
+		                                  std::forward_iterator_tag>;
 
 	private:
 		It m_iterator = It{ };
@@ -65,21 +67,6 @@ namespace daw::pipelines {
 			return result;
 		}
 
-		constexpr cache_last_iterator &operator--( ) requires(
-		  std::is_same_v<iterator_category, std::bidirectional_iterator_tag> ) {
-
-			m_cached.reset( );
-			--m_iterator;
-			return *this;
-		}
-
-		constexpr cache_last_iterator operator--( int ) requires(
-		  std::is_same_v<iterator_category, std::bidirectional_iterator_tag> ) {
-
-			auto result = *this;
-			operator--( );
-			return result;
-		}
 		constexpr bool operator==( cache_last_iterator const &rhs ) const {
 			return m_iterator == rhs.m_iterator;
 		}
-- 
2.43.0


From 547d033ebfc8e0d8f162bb09f283069a6769ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:09 +0000
Subject: [PATCH 172/260] fix: the iterators of Concat only move forward, they
 are no random access iterators

---
 include/daw/pipelines/concat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/pipelines/concat.h b/include/daw/pipelines/concat.h
index fd082ac..af256fb 100644
--- a/include/daw/pipelines/concat.h
+++ b/include/daw/pipelines/concat.h
@@ -28,7 +28,8 @@ namespace daw::pipelines {
 		static_assert( sizeof...( Ranges ) > 0,
 		               "concat_view requires at least one iterator specified" );
 		using iterator_category =
-		  common_iterator_category_t<range_category_t<Ranges>...>;
+		  common_iterator_category_t<std::forward_iterator_tag,
+		                             range_category_t<Ranges>...>;
 		using types_t = std::tuple<daw::remove_cvrvref_t<Ranges>...>;
 		using value_type = std::common_type_t<range_value_t<Ranges>...>;
 		using reference = std::common_reference_t<range_reference_t<Ranges>...>;
-- 
2.43.0


From 246153795349e024551b8724c466c07b6968787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:40 +0000
Subject: [PATCH 173/260] fix: Unique below Filter or TakeWhile could not be
 default constructed

---
 include/daw/pipelines/unique.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/pipelines/unique.h b/include/daw/pipelines/unique.h
index 81391bb..0ebc863 100644
--- a/include/daw/pipelines/unique.h
+++ b/include/daw/pipelines/unique.h
@@ -28,8 +28,8 @@ namespace daw::pipelines {
 		using difference_type = std::ptrdiff_t;
 
 	private:
-		Iterator m_first = { };
-		Iterator m_last = { };
+		Iterator m_first{ };
+		Iterator m_last{ };
 
 	public:
 		explicit unique_view( ) = default;
-- 
2.43.0


From 1d8d593437e651abf55768a22bd3594041ae2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 174/260] fix: set_bit, clear_bit and get_bit of static_bitset
 used the wrong bit

---
 include/daw/daw_static_bitset.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index bfd8fd0..c979735 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -119,7 +119,7 @@ namespace daw {
 			value_t bit;
 		};
 
-		constexpr bit_address_t get_address( size_t index ) noexcept {
+		static constexpr bit_address_t get_address( size_t index ) noexcept {
 			bit_address_t result{ };
 			result.index = static_cast<value_t>( index / daw::bsizeof<value_t> );
 
@@ -130,15 +130,15 @@ namespace daw {
 		}
 
 		static constexpr void set_bit( value_t &value, value_t bit ) noexcept {
-			value |= static_cast<value_t>( bit << 1U );
+			value |= static_cast<value_t>( value_t{ 1 } << bit );
 		}
 
 		static constexpr void clear_bit( value_t &value, value_t bit ) noexcept {
-			value &= static_cast<value_t>( ~static_cast<value_t>( bit << 1U ) );
+			value &= static_cast<value_t>( ~( value_t{ 1 } << bit ) );
 		}
 
-		static constexpr bool get_bit( value_t &value, value_t bit ) noexcept {
-			return ( value & static_cast<value_t>( bit << 1U ) ) != 0U;
+		static constexpr bool get_bit( value_t value, value_t bit ) noexcept {
+			return ( value & ( value_t{ 1 } << bit ) ) != 0U;
 		}
 
 		static constexpr size_t count_ones( value_t value ) noexcept {
@@ -257,7 +257,7 @@ namespace daw {
 
 		/// Get a specific bit from the bitset
 		/// \param index bit position in set
-		constexpr bool get_bit( size_t index ) noexcept {
+		constexpr bool get_bit( size_t index ) const noexcept {
 			auto const loc = get_address( index );
 			return get_bit( m_data[loc.index], loc.bit );
 		}
-- 
2.43.0


From acae82901d60538529292ca8c07521bfe84e88aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 175/260] fix: static_bitset from integers kept the wrong bits
 of the last word

---
 include/daw/daw_static_bitset.h | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index c979735..3c6003e 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -88,16 +88,10 @@ namespace daw {
 
 		template<size_t BitWidth, typename value_t>
 		constexpr value_t get_diff_mask( ) noexcept {
-			size_t bw = BitWidth;
-			if( bw > bsizeof<value_t> ) {
-				bw %= bsizeof<value_t>;
-			} else if( bw < bsizeof<value_t> ) {
-				bw = bsizeof<value_t> - bw;
-			}
-			if( bw == 0 ) {
-				return max_value<value_t>;
-			}
-			return daw::mask_msb<value_t>( bw );
+			// The bits of the last element that are past the end
+			size_t const unused =
+			  get_elements_needed<BitWidth, value_t>( ) * bsizeof<value_t> - BitWidth;
+			return daw::mask_msb<value_t>( unused );
 		}
 	} // namespace bitset_impl
 	inline constexpr bitset_impl::fmt_binary_t const fmt_binary{ };
-- 
2.43.0


From dd2fd9e4d3cb287ab5c8437c6c85bed70be1d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 176/260] fix: one_count and zero_count of static_bitset did
 not compile, zeros were counted past the end

---
 include/daw/daw_static_bitset.h | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 3c6003e..991cf0c 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -144,13 +144,9 @@ namespace daw {
 			return count;
 		}
 
-		static constexpr size_t count_zeros( value_t value ) noexcept {
-			return bsizeof<value_t> - count_ones( value );
-		}
-
 		template<size_t N>
 		static constexpr size_t
-		count_ones( std::array<value_t, N> const &values ) noexcept {
+		count_ones( bounded_array_t<value_t, N> const &values ) noexcept {
 			size_t count = 0;
 			for( size_t n = 0; n < N; ++n ) {
 				count += count_ones( values[n] );
@@ -158,16 +154,6 @@ namespace daw {
 			return count;
 		}
 
-		template<size_t N>
-		static constexpr size_t
-		count_zeros( std::array<value_t, N> const &values ) noexcept {
-			size_t count = 0;
-			for( size_t n = 0; n < N; ++n ) {
-				count += count_zeros( values[n] );
-			}
-			return count;
-		}
-
 	public:
 		struct static_bitset_iterator;
 		struct static_bitset_const_iterator;
@@ -273,7 +259,7 @@ namespace daw {
 		}
 
 		constexpr size_t zero_count( ) const noexcept {
-			return count_zeros( m_data );
+			return BitWidth - one_count( );
 		}
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
-- 
2.43.0


From 9a5c0fde65927908036b1512af84371e2fdb10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 177/260] fix: operations on static_bitset of different widths
 did not compile

---
 include/daw/daw_static_bitset.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 991cf0c..3f65fee 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -101,6 +101,10 @@ namespace daw {
 	template<size_t BitWidth>
 	class static_bitset {
 		static_assert( BitWidth > 0 );
+
+		template<size_t>
+		friend class static_bitset;
+
 		using value_t = uintmax_t;
 
 		static constexpr size_t const m_element_capacity =
@@ -219,7 +223,11 @@ namespace daw {
 		  std::enable_if_t<( BitWidth > BitWidthOther ), std::nullptr_t> = nullptr>
 		constexpr static_bitset(
 		  static_bitset<BitWidthOther> const &other ) noexcept
-		  : m_data{ other.m_data } {}
+		{
+			for( size_t n = 0; n < other.m_data.size( ); ++n ) {
+				m_data[n] = other.m_data[n];
+			}
+		}
 
 		/// Enable a specific bit in the bitset
 		/// \param index bit position in set
-- 
2.43.0


From 76be80df376ff143b6b7b3618fd74a1a73f0f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 178/260] fix: static_bitset |= returned a copy and set bits
 past the end

---
 include/daw/daw_static_bitset.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 3f65fee..3e11655 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -139,6 +139,11 @@ namespace daw {
 			return ( value & ( value_t{ 1 } << bit ) ) != 0U;
 		}
 
+		/// Bits past the end are always zero
+		constexpr void clear_unused( ) noexcept {
+			m_data.back( ) &= bitset_impl::get_diff_mask<BitWidth, value_t>( );
+		}
+
 		static constexpr size_t count_ones( value_t value ) noexcept {
 			size_t count = 0;
 			while( value ) {
@@ -332,12 +337,13 @@ namespace daw {
 		// Bitwise operations
 
 		template<size_t BitWidthRhs>
-		constexpr static_bitset
+		constexpr static_bitset &
 		operator|=( static_bitset<BitWidthRhs> const &rhs ) noexcept {
 			size_t const SZ = (std::min)( m_data.size( ), rhs.m_data.size( ) );
 			for( size_t n = 0; n < SZ; ++n ) {
 				m_data[n] |= rhs.m_data[n];
 			}
+			clear_unused( );
 			return *this;
 		}
 
-- 
2.43.0


From de13e1d55e984cd5f67483e5928386b6dccf9557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 179/260] fix: static_bitset ~ set bits past the end

---
 include/daw/daw_static_bitset.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 3e11655..d2226d2 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -406,6 +406,7 @@ namespace daw {
 			for( size_t n = 0; n < m_data.size( ); ++n ) {
 				result.m_data[n] = ~m_data[n];
 			}
+			result.clear_unused( );
 			return result;
 		}
 
-- 
2.43.0


From 696e482b32e92a0f80071a433a55333ad760a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 180/260] fix: static_bitset <<= lost the bits carried between
 words, read out of range and set bits past the end

---
 include/daw/daw_static_bitset.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index d2226d2..be3e37a 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -461,23 +461,27 @@ namespace daw {
 				clear( );
 				return *this;
 			}
+			if( bits == 0U ) {
+				return *this;
+			}
 			if( bits < bsizeof<value_t> ) {
 				value_t carry = 0U;
 				for( size_t n = 0; n < m_data.size( ); ++n ) {
-					value_t next_carry = ( m_data[n] & daw::mask_lsb<value_t>( bits ) ) >>
-					                     ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[n] >> ( bsizeof<value_t> - bits );
 					m_data[n] <<= bits;
 					m_data[n] |= carry;
 					carry = next_carry;
 				}
+				clear_unused( );
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = m_data.size( ); n > 0; --n ) {
+				for( size_t n = m_data.size( ); n > 1; --n ) {
 					auto pos = n - 1;
 					m_data[pos] = m_data[pos - 1];
 				}
 				m_data[0] = 0U;
+				clear_unused( );
 				return *this;
 			}
 			while( bits >= bsizeof<value_t> ) {
-- 
2.43.0


From 02c29ee3292f97c93c1fc022ddd60a7c738795cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 181/260] fix: static_bitset >>= lost the bits carried between
 words and read out of range

---
 include/daw/daw_static_bitset.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index be3e37a..072a3ba 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -503,8 +503,7 @@ namespace daw {
 				value_t carry = 0U;
 				for( size_t n = m_data.size( ); n > 0; --n ) {
 					auto const pos = n - 1;
-					value_t next_carry = ( m_data[pos] & daw::mask_msb<value_t>( bits ) )
-					                     << ( bsizeof<value_t> - bits );
+					value_t next_carry = m_data[pos] << ( bsizeof<value_t> - bits );
 					m_data[pos] >>= bits;
 					m_data[pos] |= carry;
 					carry = next_carry;
@@ -512,7 +511,7 @@ namespace daw {
 				return *this;
 			}
 			if( bits == bsizeof<value_t> ) {
-				for( size_t n = 0; n < m_data.size( ); ++n ) {
+				for( size_t n = 0; n + 1 < m_data.size( ); ++n ) {
 					m_data[n] = m_data[n + 1];
 				}
 				m_data.back( ) = 0U;
-- 
2.43.0


From cc7b7713e02d77e516c37bc9043e2efefbc48933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:29 +0000
Subject: [PATCH 182/260] fix: to_string of static_bitset wrote digits out of
 range

---
 include/daw/daw_static_bitset.h | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/daw/daw_static_bitset.h b/include/daw/daw_static_bitset.h
index 072a3ba..ddb88d7 100644
--- a/include/daw/daw_static_bitset.h
+++ b/include/daw/daw_static_bitset.h
@@ -277,20 +277,9 @@ namespace daw {
 
 		std::string to_string( bitset_impl::fmt_binary_t = fmt_binary ) const {
 			std::string result( BitWidth, '0' );
-			size_t pos = m_element_capacity - 1;
-			for( size_t index = 0; index < m_data.size( ); ++index ) {
-				auto value = m_data[index];
-				if( !value ) {
-					pos -= daw::bsizeof<value_t>;
-					continue;
-				}
-				while( value ) {
-					auto tmp = value & 1U;
-					if( tmp == 1 ) {
-						result[pos] = '1';
-					}
-					value >>= 1U;
-					--pos;
+			for( size_t index = 0; index < BitWidth; ++index ) {
+				if( get_bit( index ) ) {
+					result[BitWidth - 1U - index] = '1';
 				}
 			}
 			return result;
-- 
2.43.0


From ce45fa78542bbcc397d051070faf0010e701533d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 183/260] fix: find_iterator with a function pointer did not
 compile

---
 include/daw/iterator/impl/daw_find_iterator_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/iterator/impl/daw_find_iterator_impl.h b/include/daw/iterator/impl/daw_find_iterator_impl.h
index f310527..f39b1b4 100644
--- a/include/daw/iterator/impl/daw_find_iterator_impl.h
+++ b/include/daw/iterator/impl/daw_find_iterator_impl.h
@@ -38,6 +38,9 @@ namespace daw::find_iterator_impl {
 
 	template<typename Filter>
 	struct FilterProxy<Filter, false> {
+		explicit constexpr FilterProxy( Filter filt )
+		  : m_filter{ filt } {}
+
 	protected:
 		Filter m_filter;
 
-- 
2.43.0


From 51396529be3d9b0fec7d39979aa30c3da3305ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 184/260] fix: find_one_iterator did not move to the first
 match

---
 include/daw/iterator/daw_find_one_iterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/daw_find_one_iterator.h b/include/daw/iterator/daw_find_one_iterator.h
index 4bab784..609c42d 100644
--- a/include/daw/iterator/daw_find_one_iterator.h
+++ b/include/daw/iterator/daw_find_one_iterator.h
@@ -68,6 +68,8 @@ namespace daw {
 			  m_last,
 			  find_iterator_impl::FilterProxy<Filters, std::is_class_v<Filters>>::
 			    filter( )... );
+			m_first = tmp.position;
+			m_last_index = tmp.index;
 		}
 
 		constexpr value_type operator*( ) {
-- 
2.43.0


From 7952481a5f2ae8388ad0f33b0bbce094be8d5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 185/260] fix: -= of chunk_iterator moved forward

---
 include/daw/iterator/daw_chunk_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index c8e9624..9b4143d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -88,7 +88,7 @@ namespace daw {
 		}
 
 		constexpr chunk_iterator &operator-=( difference_type n ) {
-			m_iterator += n * m_chunk_size;
+			m_iterator -= n * m_chunk_size;
 			return *this;
 		}
 
-- 
2.43.0


From d46ea1dcb243e2be71e6c0662e985728d4da89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 186/260] fix: the difference of chunk_iterators counted
 elements and not chunks

---
 include/daw/iterator/daw_chunk_iterator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index 9b4143d..e19c0e2 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -118,7 +118,8 @@ namespace daw {
 
 		[[nodiscard]] constexpr difference_type
 		operator-( chunk_iterator const &rhs ) const {
-			return m_iterator - rhs.m_iterator;
+			auto const diff = m_iterator - rhs.m_iterator;
+			return diff == 0 ? diff : diff / m_chunk_size;
 		}
 
 		constexpr bool operator==( chunk_iterator const &rhs ) const {
-- 
2.43.0


From bde35ca2705f2515993301d03810e4d2b6c842f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 187/260] fix: operator-> of chunk_iterator did not compile

---
 include/daw/iterator/daw_chunk_iterator.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_chunk_iterator.h b/include/daw/iterator/daw_chunk_iterator.h
index e19c0e2..bc75d4d 100644
--- a/include/daw/iterator/daw_chunk_iterator.h
+++ b/include/daw/iterator/daw_chunk_iterator.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 
 namespace daw {
 	template<typename Iterator>
@@ -44,12 +45,12 @@ namespace daw {
 			return *m_iterator;
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) {
+			return std::addressof( *m_iterator );
 		}
 
-		[[nodiscard]] constexpr decltype( auto ) operator->( ) const {
-			return m_iterator->operator->( );
+		[[nodiscard]] constexpr auto operator->( ) const {
+			return std::addressof( *m_iterator );
 		}
 
 		[[nodiscard]] constexpr decltype( auto ) operator[]( size_type idx ) {
-- 
2.43.0


From 5f19f46c6339299bd12ec7b4fb3ca66533a49833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 188/260] fix: circular_iterator moved back by a whole number
 of turns was past the end

---
 include/daw/iterator/daw_circular_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index f4152e5..83a4fc4 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -64,7 +64,7 @@ namespace daw {
 			if( n < 0 ) {
 				n *= -1;
 				n %= sz;
-				return sz - n;
+				return n == 0 ? n : sz - n;
 			} else if( n >= sz ) {
 				return n % sz;
 			}
-- 
2.43.0


From 50e16592d78e32682bdd4336a60038fab116c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 189/260] fix: operator-> of circular_iterator returned no
 pointer

---
 include/daw/iterator/daw_circular_iterator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_circular_iterator.h b/include/daw/iterator/daw_circular_iterator.h
index 83a4fc4..eba2473 100644
--- a/include/daw/iterator/daw_circular_iterator.h
+++ b/include/daw/iterator/daw_circular_iterator.h
@@ -15,6 +15,7 @@
 
 #include <cstddef>
 #include <iterator>
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -138,8 +139,8 @@ namespace daw {
 			return *get_iterator( m_position );
 		}
 
-		constexpr decltype( auto ) operator->( ) noexcept {
-			return *get_iterator( m_position );
+		constexpr auto operator->( ) noexcept {
+			return std::addressof( *get_iterator( m_position ) );
 		}
 
 		constexpr circular_iterator &operator++( ) noexcept {
-- 
2.43.0


From 8efebe061ed984822a65f4cfe5dea47f163a41e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 190/260] fix: it++ of integer_range_iterator did not compile

---
 include/daw/iterator/daw_integer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_integer_iterator.h b/include/daw/iterator/daw_integer_iterator.h
index 00877ce..251e1a6 100644
--- a/include/daw/iterator/daw_integer_iterator.h
+++ b/include/daw/iterator/daw_integer_iterator.h
@@ -39,7 +39,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr integer_range_iterator operator++( int ) const noexcept {
+		constexpr integer_range_iterator operator++( int ) noexcept {
 			integer_range_iterator tmp{ *this };
 			++current_value;
 			return tmp;
-- 
2.43.0


From 0dc6e7f2676a63cb875321bfa80be425ae1eec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 191/260] fix: it++ of pointer_iterator did not compile

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 6c175f3..7f6fd48 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -67,7 +67,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr pointer_iterator &operator++( int ) {
+		constexpr pointer_iterator operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
-- 
2.43.0


From 798b2fc9c3f41404f4d914d42bc608280a805736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 192/260] fix: --it of pointer_iterator returned a copy

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 7f6fd48..1d749cf 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -73,7 +73,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator--( ) {
+		constexpr pointer_iterator &operator--( ) {
 			--m_ptr;
 			return *this;
 		}
-- 
2.43.0


From 570481027d6ee05575178a838fc97d6c3674b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 193/260] fix: it - n of pointer_iterator was missing

---
 include/daw/iterator/daw_pointer_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_pointer_iterator.h b/include/daw/iterator/daw_pointer_iterator.h
index 1d749cf..8a56e08 100644
--- a/include/daw/iterator/daw_pointer_iterator.h
+++ b/include/daw/iterator/daw_pointer_iterator.h
@@ -100,7 +100,7 @@ namespace daw {
 			return result;
 		}
 
-		constexpr pointer_iterator operator-=( difference_type d ) const {
+		constexpr pointer_iterator operator-( difference_type d ) const {
 			auto result = *this;
 			result -= d;
 			return result;
-- 
2.43.0


From a3b7980646c425061ae72305c10af898f55a2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:58 +0000
Subject: [PATCH 194/260] fix: += and -= of repeat_n_char_iterator moved the
 wrong way

---
 include/daw/iterator/daw_repeat_n_char_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_repeat_n_char_iterator.h b/include/daw/iterator/daw_repeat_n_char_iterator.h
index 95db6fd..1e18cb8 100644
--- a/include/daw/iterator/daw_repeat_n_char_iterator.h
+++ b/include/daw/iterator/daw_repeat_n_char_iterator.h
@@ -72,12 +72,12 @@ namespace daw {
 		}
 
 		constexpr repeat_n_char_iterator const &operator+=( ptrdiff_t p ) noexcept {
-			m_position += p;
+			m_position -= p;
 			return *this;
 		}
 
 		constexpr repeat_n_char_iterator const &operator-=( ptrdiff_t p ) noexcept {
-			m_position -= p;
+			m_position += p;
 			return *this;
 		}
 
-- 
2.43.0


From e1ac3585a41942e46b2134e4b620fe70cc6b170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 195/260] fix: checked_iterator_proxy_t only ever checked the
 dereference

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 0a38280..451523f 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -40,9 +40,9 @@ namespace daw {
 			auto result =
 			  static_cast<std::uint8_t>( CheckIncrement ? check_increment : 0 );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDecrement ) ? check_decrement : 0 );
+			  result | ( CheckDecrement ? check_decrement : 0 ) );
 			result = static_cast<std::uint8_t>(
-			  daw::nsc_or( result, CheckDereference ) ? check_dereference : 0 );
+			  result | ( CheckDereference ? check_dereference : 0 ) );
 
 			return result;
 		}
-- 
2.43.0


From 1ad90e138a1baf314a3ec8f2b2b5fb44514a5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 196/260] fix: it++ and it-- of checked_iterator_proxy_t
 returned the new position and did not move

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 451523f..35cd0f9 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -76,9 +76,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator++( int ) const {
+		checked_iterator_proxy_t operator++( int ) {
 			checked_iterator_proxy_t result{ *this };
-			++result;
+			operator++( );
 			return result;
 		}
 
@@ -92,9 +92,9 @@ namespace daw {
 			return *this;
 		}
 
-		checked_iterator_proxy_t operator--( int ) const {
+		checked_iterator_proxy_t operator--( int ) {
 			checked_iterator_proxy_t result{ *this };
-			--result;
+			operator--( );
 			return result;
 		}
 
-- 
2.43.0


From a5ccbc7e1a7dd58f26fd1545bc5f885e6985bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 197/260] fix: operator-> of checked_iterator_proxy_t did not
 compile

---
 include/daw/iterator/daw_checked_iterator_proxy.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 35cd0f9..39ba1fb 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -14,6 +14,7 @@
 #include "daw/daw_logic.h"
 
 #include <cstdint>
+#include <memory>
 #include <stdexcept>
 #include <type_traits>
 #include <utility>
@@ -116,22 +117,22 @@ namespace daw {
 			return *current;
 		}
 
-		auto &operator->( ) {
+		auto operator->( ) {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
-		auto const &operator->( ) const {
+		auto operator->( ) const {
 			if( is_flag_set( check_dereference ) and current == last ) {
 				DAW_THROW_OR_TERMINATE(
 				  std::out_of_range,
 				  "Attempt to access members an iterator at end of range" );
 			}
-			return current.operator->( );
+			return std::addressof( *current );
 		}
 
 		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-- 
2.43.0


From 3fd74dc274a8f0460e947608d93f66d6fb4982bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 198/260] fix: checked_iterator_proxy_t could not be used with
 two types of iterators

---
 .../daw/iterator/daw_checked_iterator_proxy.h | 45 ++++++++-----------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/include/daw/iterator/daw_checked_iterator_proxy.h b/include/daw/iterator/daw_checked_iterator_proxy.h
index 39ba1fb..6a7575d 100644
--- a/include/daw/iterator/daw_checked_iterator_proxy.h
+++ b/include/daw/iterator/daw_checked_iterator_proxy.h
@@ -135,38 +135,31 @@ namespace daw {
 			return std::addressof( *current );
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
-			return lhs.current == rhs.current;
+		template<typename, typename>
+		friend class checked_iterator_proxy_t;
+
+		template<typename IteratorFirst_rhs, typename IteratorLast_rhs>
+		bool operator==(
+		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const &rhs )
+		  const {
+			return current == rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator==(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
-			return lhs.current == rhs;
+		template<typename Iterator_rhs>
+		bool operator==( Iterator_rhs const &rhs ) const {
+			return current == rhs;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorFirst_rhs,
-		         typename IteratorLast_lhs, typename IteratorLast_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const
-		    &rhs ) {
-			return lhs.current != rhs.current;
+		template<typename IteratorFirst_rhs, typename IteratorLast_rhs>
+		bool operator!=(
+		  checked_iterator_proxy_t<IteratorFirst_rhs, IteratorLast_rhs> const &rhs )
+		  const {
+			return current != rhs.current;
 		}
 
-		template<typename IteratorFirst_lhs, typename IteratorLast_lhs,
-		         typename Iterator_rhs>
-		friend bool operator!=(
-		  checked_iterator_proxy_t<IteratorFirst_lhs, IteratorLast_lhs> const &lhs,
-		  Iterator_rhs const &rhs ) {
-			return lhs.current != rhs;
+		template<typename Iterator_rhs>
+		bool operator!=( Iterator_rhs const &rhs ) const {
+			return current != rhs;
 		}
 	}; // checked_iterator_proxy_t
 
-- 
2.43.0


From f6c83b1a30fd5b250b9992279421231366701591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 199/260] fix: arg_iterator_t::at refused the first argument

---
 include/daw/iterator/daw_argument_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index 11a6b94..b9c8b3a 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -101,7 +101,7 @@ namespace daw {
 			auto const pos = m_pos + n;
 
 			daw::exception::precondition_check<std::out_of_range>(
-			  0 < pos and pos < m_argc, "Attempt to access invalid argument" );
+			  0 <= pos and pos < m_argc, "Attempt to access invalid argument" );
 
 			return std::string_view( m_argv[pos] );
 		}
-- 
2.43.0


From 6b8e5187bb385ff24e54e96d372452edc4d88151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 200/260] fix: the ordering of arg_iterator_t compared the
 number of arguments

---
 include/daw/iterator/daw_argument_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_argument_iterator.h b/include/daw/iterator/daw_argument_iterator.h
index b9c8b3a..7efb523 100644
--- a/include/daw/iterator/daw_argument_iterator.h
+++ b/include/daw/iterator/daw_argument_iterator.h
@@ -126,28 +126,28 @@ namespace daw {
 
 		constexpr bool operator<( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc < rhs.m_argc;
+				return m_pos < rhs.m_pos;
 			}
 			return not at_end( ) and rhs.at_end( );
 		}
 
 		constexpr bool operator<=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos <= rhs.m_pos;
 			}
 			return rhs.at_end( );
 		}
 
 		constexpr bool operator>( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc > rhs.m_argc;
+				return m_pos > rhs.m_pos;
 			}
-			return at_end( );
+			return at_end( ) and not rhs.at_end( );
 		}
 
 		constexpr bool operator>=( arg_iterator_t const &rhs ) const noexcept {
 			if( m_argv == rhs.m_argv ) {
-				return m_argc <= rhs.m_argc;
+				return m_pos >= rhs.m_pos;
 			}
 			return at_end( );
 		}
-- 
2.43.0


From 34734b5656c2688d7f5d30ddc1748c3aa4281c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 201/260] fix: indexed_iterator could not be moved to the end
 by +, -, next, prev and advance

---
 include/daw/iterator/daw_indexed_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9d44e3c..9c0048f 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -125,7 +125,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -136,7 +136,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
@@ -146,7 +146,7 @@ namespace daw {
 			auto const new_pos = m_position + n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			m_position = new_pos;
 			return *this;
 		}
@@ -155,7 +155,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
@@ -167,7 +167,7 @@ namespace daw {
 			auto const new_pos = m_position - n;
 			daw::exception::dbg_precondition_check(
 			  new_pos >= 0 &&
-			  new_pos < static_cast<difference_type>( m_pointer->size( ) ) );
+			  new_pos <= static_cast<difference_type>( m_pointer->size( ) ) );
 			auto result =
 			  indexed_iterator( m_pointer, static_cast<size_type>( new_pos ) );
 			return result;
-- 
2.43.0


From 4271f09e7007e4c8b6ca4a92ccf1027600abfa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 202/260] fix: the difference of indexed_iterators could not be
 negative

---
 include/daw/iterator/daw_indexed_iterator.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/daw/iterator/daw_indexed_iterator.h b/include/daw/iterator/daw_indexed_iterator.h
index 9c0048f..92a1286 100644
--- a/include/daw/iterator/daw_indexed_iterator.h
+++ b/include/daw/iterator/daw_indexed_iterator.h
@@ -197,8 +197,6 @@ namespace daw {
 			daw::exception::dbg_precondition_check( lhs.m_pointer == rhs.m_pointer );
 			daw::exception::dbg_precondition_check( lhs.m_position >= 0 );
 			daw::exception::dbg_precondition_check( rhs.m_position >= 0 );
-			daw::exception::dbg_precondition_check( lhs.m_position >=
-			                                        rhs.m_position );
 
 			return lhs.m_position - rhs.m_position;
 		}
-- 
2.43.0


From 17ea97db6242e2f094c426926e804234d4534be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 203/260] fix: copy assignment of InputIterator released the
 old iterator as the new type

---
 include/daw/iterator/InputIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index fb67376..e698fc0 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -138,8 +138,8 @@ namespace daw {
 				// copy first so that if it throws we are cool
 				auto tmp = rhs.fn_op_clone( )( rhs.m_iterator );
 				std::swap( m_iterator, tmp );
-				m_vtable = rhs.m_vtable;
 				input_impl::get<input_impl::OpDel, value_type>( m_vtable )( tmp );
+				m_vtable = rhs.m_vtable;
 			}
 			return *this;
 		}
-- 
2.43.0


From 371e8c6b137385a54716f38540d43374a96a03be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 204/260] fix: move assignment of InputIterator leaked the old
 iterator

---
 include/daw/iterator/InputIterator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/iterator/InputIterator.h b/include/daw/iterator/InputIterator.h
index e698fc0..252bf4e 100644
--- a/include/daw/iterator/InputIterator.h
+++ b/include/daw/iterator/InputIterator.h
@@ -150,6 +150,8 @@ namespace daw {
 
 		InputIterator &operator=( InputIterator &&rhs ) noexcept {
 			if( this != &rhs ) {
+				input_impl::get<input_impl::OpDel, value_type>( m_vtable )(
+				  m_iterator );
 				m_iterator = daw::exchange( rhs.m_iterator, nullptr );
 				m_vtable = rhs.m_vtable;
 			}
-- 
2.43.0


From d2c30a6820242ba81153a024552e3fb54cefb4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 205/260] fix: += and -= of iota_iterator ignored the step

---
 include/daw/iterator/daw_iota_iterator.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index 4580f83..d4e099a 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -50,15 +50,11 @@ namespace daw {
 		  , m_step( step_distance ) {}
 
 		constexpr iota_iterator &operator+=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) + n );
-			return *this;
+			return *this = *this + n;
 		}
 
 		constexpr iota_iterator &operator-=( difference_type n ) noexcept {
-			m_value =
-			  static_cast<value_type>( static_cast<difference_type>( m_value ) - n );
-			return *this;
+			return *this = *this - n;
 		}
 
 		[[nodiscard]] constexpr reference operator*( ) const noexcept {
-- 
2.43.0


From d2471e089636b282a1d7c6449cbb5b779338e229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:50 +0000
Subject: [PATCH 206/260] fix: iota_iterator and iota_range compared values and
 not positions

---
 include/daw/iterator/daw_iota_iterator.h | 49 ++++++++++++++++++++----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/include/daw/iterator/daw_iota_iterator.h b/include/daw/iterator/daw_iota_iterator.h
index d4e099a..bef1ff6 100644
--- a/include/daw/iterator/daw_iota_iterator.h
+++ b/include/daw/iterator/daw_iota_iterator.h
@@ -16,6 +16,7 @@
 #include "daw_arrow_proxy.h"
 
 #include <cstddef>
+#include <cstdint>
 #include <iterator>
 #include <type_traits>
 
@@ -119,11 +120,23 @@ namespace daw {
 		template<typename U>
 		[[nodiscard]] constexpr difference_type
 		compare( iota_iterator<U> const &rhs ) const noexcept {
-			auto const diff = m_value - rhs.m_value;
-			if( std::less<value_type>{ }( diff, value_type{ 0 } ) ) {
+			// Positions, values descend when the step is negative
+			bool const descends = m_step < difference_type{ 0 };
+			auto const lhs_pos = descends ? rhs.m_value : m_value;
+			auto const rhs_pos = descends ? m_value : rhs.m_value;
+			if constexpr( std::is_floating_point_v<value_type> ) {
+				// Repeated addition of the step is not exact
+				auto const step = descends ? -m_step : m_step;
+				auto const diff =
+				  lhs_pos < rhs_pos ? rhs_pos - lhs_pos : lhs_pos - rhs_pos;
+				if( diff < step / 2 ) {
+					return 0;
+				}
+			}
+			if( lhs_pos < rhs_pos ) {
 				return -1;
 			}
-			if( std::less<value_type>{ }( value_type{ 0 }, 0 ) ) {
+			if( rhs_pos < lhs_pos ) {
 				return 1;
 			}
 			return 0;
@@ -156,7 +169,7 @@ namespace daw {
 
 		friend constexpr bool operator<=( iota_iterator const &lhs,
 		                                  iota_iterator const &rhs ) noexcept {
-			return lhs.compare( rhs ) < 0;
+			return lhs.compare( rhs ) <= 0;
 		}
 	}; // iota_iterator
 
@@ -177,22 +190,44 @@ namespace daw {
 		iterator m_first{ };
 		iterator m_last{ };
 
+		// The end is the first position that is not before last_value
+		static constexpr iterator find_last( value_type first, value_type last,
+		                                     difference_type step ) noexcept {
+			bool const descends = step < difference_type{ 0 };
+			if( descends ? not( last < first ) : not( first < last ) ) {
+				return iterator( first, step );
+			}
+			auto const dist = static_cast<difference_type>(
+			  descends ? first - last : last - first );
+			auto const abs_step =
+			  static_cast<difference_type>( descends ? -step : step );
+			auto count = static_cast<difference_type>( dist / abs_step );
+			if constexpr( std::is_floating_point_v<value_type> ) {
+				count =
+				  static_cast<difference_type>( static_cast<std::intmax_t>( count ) );
+			}
+			if( count * abs_step < dist ) {
+				++count;
+			}
+			return iterator( first, step ) + count;
+		}
+
 	public:
 		explicit iota_range( ) = default;
 		explicit constexpr iota_range( reference last_value ) noexcept
 		  : m_first( 0 )
-		  , m_last( last_value ) {}
+		  , m_last( find_last( 0, last_value, 1 ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value ) noexcept
 		  : m_first( start_value )
-		  , m_last( last_value ) {}
+		  , m_last( find_last( start_value, last_value, 1 ) ) {}
 
 		explicit constexpr iota_range( reference start_value,
 		                               reference last_value,
 		                               difference_type step ) noexcept
 		  : m_first( start_value, step )
-		  , m_last( last_value ) {}
+		  , m_last( find_last( start_value, last_value, step ) ) {}
 
 		constexpr iterator begin( ) const noexcept {
 			return m_first;
-- 
2.43.0


From 5a9faf089581a4ffa3a64ef500e52d24b7e8c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:06 +0000
Subject: [PATCH 207/260] fix: subspan of iter_view ended count after the start
 of the view

---
 include/daw/daw_iter_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index c04105a..83138ce 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -107,9 +107,10 @@ namespace daw {
 
 		constexpr iter_view
 		subspan( size_type offset, size_type count = max_value<size_type> ) const {
-			auto const sz = std::min( count, size( ) - std::min( size( ), offset ) );
-			return iter_view( std::next( begin( ), offset ),
-			                  std::next( begin( ), sz ) );
+			offset = std::min( size( ), offset );
+			auto const sz = std::min( count, size( ) - offset );
+			return iter_view(
+			  std::next( begin( ), static_cast<difference_type>( offset ) ), sz );
 		}
 
 		constexpr size_type size( ) const {
-- 
2.43.0


From e11b1d4b70f3b7f95ee7e966a3e3546261077048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:06 +0000
Subject: [PATCH 208/260] fix: pop_front_until and pop_front_while of iter_view
 discarded past the end

---
 include/daw/daw_iter_view.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_iter_view.h b/include/daw/daw_iter_view.h
index 83138ce..cd8c40e 100644
--- a/include/daw/daw_iter_view.h
+++ b/include/daw/daw_iter_view.h
@@ -339,7 +339,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_until( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
@@ -355,7 +357,9 @@ namespace daw {
 			auto const f = m_first;
 			remove_prefix_while( needle );
 			auto result = iter_view( f, m_first );
-			remove_prefix( );
+			if( not empty( ) ) {
+				remove_prefix( );
+			}
 			return result;
 		}
 
-- 
2.43.0


From 240c4128f90ea47cb13c91452e9a4a807288a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 209/260] fix: find_result_t::empty( throw_on_empty ) never
 said that the result is empty

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 812b880..1fa1c03 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -51,7 +51,7 @@ namespace daw::parser {
 		[[nodiscard]] constexpr bool empty( bool throw_on_empty ) {
 			daw::exception::precondition_check<ParserEmptyException>(
 			  not( throw_on_empty and empty( ) ) );
-			return false;
+			return empty( );
 		}
 
 		template<typename Container>
-- 
2.43.0


From 107130df8a72098f5a93175e00cfd8ab9c2ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 210/260] fix: one_of of the parsers did not compile

---
 include/daw/daw_parser_helper.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 1fa1c03..c65fd1e 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -159,6 +159,10 @@ namespace daw::parser {
 		return is_a( value, tst ) or is_a( value, tsts... );
 	}
 
+	template<typename T, typename Container>
+	[[nodiscard]] constexpr auto value_in( T &&value, Container &&container )
+	  -> decltype( std::begin( container ) == std::end( container ) );
+
 	template<typename Arg>
 	class one_of_t {
 		std::vector<Arg> m_args;
@@ -175,7 +179,7 @@ namespace daw::parser {
 
 	template<typename... Arg>
 	[[nodiscard]] auto one_of( Arg &&...args ) {
-		return one_of_t<Arg...>{ DAW_FWD( args )... };
+		return one_of_t<std::common_type_t<Arg...>>{ DAW_FWD( args )... };
 	}
 
 	template<typename ForwardIterator, typename Value, typename... Values>
-- 
2.43.0


From 0695a0c1745d3af3179eac913e89f237f3262999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 211/260] fix: value_in, in and until_values of the parsers
 found what is not in the set

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index c65fd1e..5d3a829 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -204,14 +204,14 @@ namespace daw::parser {
 		return std::find_if( std::begin( container ), std::end( container ),
 		                     [&]( auto const &v ) {
 			                     return is_a( value, v );
-		                     } ) == std::end( container );
+		                     } ) != std::end( container );
 	}
 
 	template<typename T, typename U, size_t N>
 	[[nodiscard]] constexpr bool value_in( T &&value, U ( &container )[N] ) {
 		return std::find_if( container, container + N, [&]( auto const &v ) {
 			       return is_a( value, v );
-		       } ) == std::end( container );
+		       } ) != std::end( container );
 	}
 
 	class in_t {
-- 
2.43.0


From 3d0d4d9ff2d4cdf3061a7c59f80b9919e38ebd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 212/260] fix: is_true with many predicates called the value
 with the predicate

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 5d3a829..1b7543f 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -257,7 +257,7 @@ namespace daw::parser {
 	template<typename T, typename Predicate, typename... Predicates>
 	[[nodiscard]] constexpr bool is_true( T &&value, Predicate &&predicate,
 	                                      Predicates &&...predicates ) {
-		return is_true( DAW_FWD( predicate ), DAW_FWD( value ) ) or
+		return is_true( value, DAW_FWD( predicate ) ) or
 		       is_true( DAW_FWD( value ), DAW_FWD( predicates )... );
 	}
 
-- 
2.43.0


From 15167ed4cc949d4ddc0f8c1a33ba675147eff7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 213/260] fix: assert_equal, assert_not_equal and assert_empty
 threw when they should not

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 1b7543f..c16ba7b 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -320,14 +320,14 @@ namespace daw::parser {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
 
-		daw::exception::precondition_check<ParserException>( lhs == rhs );
+		daw::exception::precondition_check<ParserException>( not( lhs == rhs ) );
 	}
 
 	template<typename T, typename U>
 	constexpr void assert_equal( T &&lhs, U &&rhs ) {
 		static_assert( traits::is_comparable_v<T, U>,
 		               "lhs is not comparable to rhs" );
-		daw::exception::precondition_check<ParserException>( lhs != rhs );
+		daw::exception::precondition_check<ParserException>( lhs == rhs );
 	}
 
 	template<typename Iterator>
-- 
2.43.0


From 2aa6eecffc13db3c0739cfe3f24b2f4880490dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 214/260] fix: split_on and split_if of the parsers never
 returned once a divider was found

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index c16ba7b..9dd214c 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -393,7 +393,7 @@ namespace daw::parser {
 		  until_value( first, last, DAW_FWD( divider ), DAW_FWD( dividers )... );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until_value( result.last, last, DAW_FWD( divider ),
+			result = until_value( std::next( result.last ), last, DAW_FWD( divider ),
 			                      DAW_FWD( dividers )... );
 		}
 		if( result.first != result.last ) {
@@ -412,7 +412,7 @@ namespace daw::parser {
 		auto result = until( first, last, is_divider );
 		while( result ) {
 			endings.push_back( result.last );
-			result = until( result.last, last, is_divider );
+			result = until( std::next( result.last ), last, is_divider );
 		}
 		if( result.first != result.last ) {
 			endings.push_back( result.last );
-- 
2.43.0


From bbaa94eed7d231fbe4031142aa4cb6141e3f9048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 215/260] fix: trim_right of a range stopped at the first blank
 and not after the last other

---
 include/daw/daw_parser_helper.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 9dd214c..548baab 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -516,8 +516,13 @@ namespace daw::parser {
 		if( not start ) {
 			return make_find_result( first, last, false );
 		}
-		auto finish = until( start.last, last, &is_unicode_whitespace<val_t> );
-		return make_find_result( first, finish.last, true );
+		auto finish = std::next( start.last );
+		for( auto it = finish; it != last; ++it ) {
+			if( not_unicode_whitespace<val_t>( *it ) ) {
+				finish = std::next( it );
+			}
+		}
+		return make_find_result( first, finish, true );
 	}
 
 	template<typename ForwardIterator>
-- 
2.43.0


From 6a5102515beeb7a6a52b8f625f7a835955108cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 216/260] fix: trimming a range that is all blanks left all of
 them

---
 include/daw/daw_parser_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 548baab..3c9009d 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -500,7 +500,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last );
+			return make_find_result( last, last );
 		}
 		return make_find_result( start.last, last );
 	}
@@ -514,7 +514,7 @@ namespace daw::parser {
 		using val_t = daw::traits::root_type_t<decltype( *first )>;
 		auto start = until( first, last, &not_unicode_whitespace<val_t> );
 		if( not start ) {
-			return make_find_result( first, last, false );
+			return make_find_result( first, first, false );
 		}
 		auto finish = std::next( start.last );
 		for( auto it = finish; it != last; ++it ) {
-- 
2.43.0


From 0a4faa78ed3e36d14989acf76f0ba58cbde84119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 217/260] fix: is_crlf only matched at the start

---
 include/daw/daw_parser_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 3c9009d..3537f37 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -572,7 +572,7 @@ namespace daw::parser {
 
 		[[nodiscard]] inline bool operator( )( value_type const &v ) {
 			m_last_values.push_back( std::move( v ) );
-			while( m_last_values.size( ) > 4 ) {
+			while( m_last_values.size( ) > 2 * m_count ) {
 				m_last_values.pop_front( );
 			}
 			return match( );
-- 
2.43.0


From 6e43ae0571ab4537a0df198ce2d1dd7c5f8fd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 218/260] fix: find_first_of_any of the parsers did not find
 and could run forever

---
 include/daw/daw_parser_helper.h | 25 +------------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 3537f37..6486146 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -693,29 +693,6 @@ namespace daw::parser {
 	[[nodiscard]] constexpr find_result_t<ForwardIterator>
 	find_first_of_any( ForwardIterator first, ForwardIterator last,
 	                   Sequence values ) {
-		auto first_val = *std::begin( values );
-		auto result = until_value( first, last, first_val );
-		if( not result ) {
-			return result;
-		}
-		auto last_first = result.first;
-		auto new_end = std::next( result.first );
-		while( new_end != last ) {
-			auto seq_pos = std::next( std::begin( values ) );
-			while( seq_pos != std::end( values ) and new_end != last and
-			       *seq_pos == *new_end ) {
-				if( *new_end == first_val ) {
-					last_first = new_end;
-				}
-				++seq_pos;
-				++new_end;
-			}
-			if( seq_pos == std::end( values ) ) {
-				result.last = new_end;
-				return result;
-			}
-			result = until_value( first, last, first_val );
-		}
-		return make_find_result( first, last, false );
+		return until_values( first, last, values );
 	}
 } // namespace daw::parser
-- 
2.43.0


From f3cfeceb8ba21049825715c2d5dc2fce540917cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 219/260] fix: find_number ended at the first digit

---
 include/daw/daw_parser_addons.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 119e8f4..6d696c3 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -24,19 +24,23 @@ namespace daw::parser {
 			return is_a( '-', v ) or is_number( v );
 		};
 
+		bool at_start = true;
 		bool has_decimal = false;
-		auto const is_last = [&has_decimal]( auto const &v ) {
+		auto const is_last = [&at_start, &has_decimal]( auto const &v ) {
+			if(at_start) {
+				at_start = false;
+				return false;
+			}
 			if(is_a( '.', v )) {
 				if(has_decimal) {
 					return true;
 				}
 				has_decimal = true;
+				return false;
 			}
-			return is_number( v );
+			return not is_number( v );
 		};
-		auto result = from_to_pred( first, last, is_first, is_last );
-		++result.last;
-		return result;
+		return from_to_pred( first, last, is_first, is_last );
 	}
 
 	template<typename R>
-- 
2.43.0


From 0b17dd5625b30291ca7d9bbb5c3a689f8bc84259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 220/260] fix: parse_int and parse_unsigned_int read past the
 end of an empty range

---
 include/daw/daw_parser_addons.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 6d696c3..7aeb115 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -53,6 +53,7 @@ namespace daw::parser {
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_unsigned_int( ForwardIterator first,
 	                                   ForwardIterator last, Result &result ) {
+		assert_not_empty( first, last );
 		result = Result{};
 		auto count = std::numeric_limits<Result>::digits10;
 
@@ -93,6 +94,7 @@ namespace daw::parser {
 	template<typename ForwardIterator, typename Result>
 	constexpr void parse_int( ForwardIterator first, ForwardIterator last,
 	                          Result &result ) {
+		assert_not_empty( first, last );
 		bool is_neg = false;
 		if('-' == *first) {
 			daw::exception::precondition_check<ParserOutOfRangeException>(
-- 
2.43.0


From 6f96c8917558481e41e011b0cbc61dd2516a4e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 221/260] fix: parse_int and parse_unsigned_int took any
 character for a digit

---
 include/daw/daw_parser_addons.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 7aeb115..ba3f6ae 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -62,6 +62,9 @@ namespace daw::parser {
 			"Negative values are unsupported" );
 
 		for(; first != last and count > 0; ++first, --count) {
+			daw::exception::precondition_check<ParserOutOfRangeException>(
+				is_number( *first ),
+				"Only digits are supported" );
 			result *= Result{10};
 			Result const val = from_num_char<Result>( *first );
 			result += val;
-- 
2.43.0


From 0903b7e0bdd7fb89029d3c843083f6b088108843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 222/260] fix: parse_string_literal looked at the blanks before
 the quote

---
 include/daw/daw_parser_addons.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index ba3f6ae..628f1a7 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -124,7 +124,8 @@ namespace daw::parser {
 	constexpr auto parse_string_literal( ForwardIterator first,
 	                                     ForwardIterator const last ) {
 		auto result = trim_left( first, last );
-		auto quote_char = *first;
+		assert_not_empty( result.first, result.last );
+		auto quote_char = *result.first;
 
 		daw::exception::precondition_check<ParserException>(
 			is_quote( quote_char ) );
-- 
2.43.0


From 11e4e02bcc43c5e59033cc070fa15ee7d6c3b78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:55 +0000
Subject: [PATCH 223/260] fix: parse_string_literal accepted a literal whose
 last quote is escaped

---
 include/daw/daw_parser_addons.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_addons.h b/include/daw/daw_parser_addons.h
index 628f1a7..daed604 100644
--- a/include/daw/daw_parser_addons.h
+++ b/include/daw/daw_parser_addons.h
@@ -135,7 +135,8 @@ namespace daw::parser {
 		++it;
 		bool found = false;
 		while(it != last) {
-			if(( found = is_a( *it, quote_char ) ) and !is_escape( *last_it )) {
+			if(is_a( *it, quote_char ) and !is_escape( *last_it )) {
+				found = true;
 				break;
 			}
 			last_it = it;
-- 
2.43.0


From c5c92bf9bf73690011afedb583f7f20cc3cfd486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 224/260] fix: parse_to overflowed integers instead of throwing
 numeric_overflow_exception

---
 include/daw/daw_parse_to.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 4e5cf14..e244669 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -42,7 +42,7 @@ namespace daw {
 			namespace helpers {
 				template<typename Result>
 				constexpr Result parse_int( daw::string_view &str ) {
-					intmax_t count = std::numeric_limits<Result>::digits;
+					using limits_t = std::numeric_limits<Result>;
 					Result result = 0;
 					bool is_neg = false;
 					if( '-' == str.front( ) ) {
@@ -53,18 +53,23 @@ namespace daw {
 						is_neg = true;
 						str.remove_prefix( );
 					}
-					while( count > 0 and !str.empty( ) and is_number( str.front( ) ) ) {
-						result *= static_cast<Result>( 10 );
-						result += static_cast<Result>( str.front( ) - '0' );
-						--count;
+					while( !str.empty( ) and is_number( str.front( ) ) ) {
+						auto const digit = static_cast<Result>( str.front( ) - '0' );
+						// Accumulate towards the sign so that the minimum is in range
+						if( is_neg ) {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result >= ( ( limits_t::min )( ) + digit ) / 10 );
+							result = static_cast<Result>( result * 10 - digit );
+						} else {
+							daw::exception::precondition_check<numeric_overflow_exception>(
+							  result <= ( ( limits_t::max )( ) - digit ) / 10 );
+							result = static_cast<Result>( result * 10 + digit );
+						}
 						str.remove_prefix( );
 					}
 
 					daw::exception::precondition_check<numeric_overflow_exception>(
 					  str.empty( ) );
-					if( is_neg ) {
-						result *= static_cast<Result>( -1 );
-					}
 					return result;
 				}
 
-- 
2.43.0


From cc11aa3e816b11c739031ac2bc95ca75a663c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 225/260] fix: parse_to called a lone minus sign zero

---
 include/daw/daw_parse_to.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index e244669..986c816 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -52,6 +52,8 @@ namespace daw {
 
 						is_neg = true;
 						str.remove_prefix( );
+						daw::exception::precondition_check<invalid_input_exception>(
+						  not str.empty( ) );
 					}
 					while( !str.empty( ) and is_number( str.front( ) ) ) {
 						auto const digit = static_cast<Result>( str.front( ) - '0' );
-- 
2.43.0


From 2bc0a5fa08013247008f88af07a745399ddc5d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:14 +0000
Subject: [PATCH 226/260] fix: parse_to looked for the closing quote past the
 end of the string

---
 include/daw/daw_parse_to.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_parse_to.h b/include/daw/daw_parse_to.h
index 986c816..8422f89 100644
--- a/include/daw/daw_parse_to.h
+++ b/include/daw/daw_parse_to.h
@@ -144,7 +144,7 @@ namespace daw {
 					last_char = str.pop_front( );
 				}
 				daw::exception::precondition_check<missing_expected_quotes_exception>(
-				  str.data( ) != nullptr and str.front( ) == '"' );
+				  not str.empty( ) and str.front( ) == '"' );
 
 				return daw::string_view( first, str.data( ) );
 			}
-- 
2.43.0


From 2fd99d903aa90c84318c7d27c97912d616b3b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:39 +0000
Subject: [PATCH 227/260] fix: is_alpha and is_alphanumeric of the parsers did
 not take an lvalue

---
 include/daw/daw_parser_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_parser_helper.h b/include/daw/daw_parser_helper.h
index 6486146..d6c2c26 100644
--- a/include/daw/daw_parser_helper.h
+++ b/include/daw/daw_parser_helper.h
@@ -281,7 +281,8 @@ namespace daw::parser {
 
 	template<typename T>
 	[[nodiscard]] constexpr bool is_alpha( T &&value ) noexcept {
-		using val_t = typename daw::traits::max_sizeof<T, decltype( 'a' )>::type;
+		using val_t = typename daw::traits::max_sizeof<daw::remove_cvref_t<T>,
+		                                               decltype( 'a' )>::type;
 		constexpr auto const a = static_cast<val_t>( 'a' );
 		constexpr auto const A = static_cast<val_t>( 'A' );
 		constexpr auto const z = static_cast<val_t>( 'z' );
-- 
2.43.0


From 2f1202722bb6f5c61c79d2af2b7d22f4c0b8bfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 228/260] fix: fnv1a_hash_t could not hash an array

---
 include/daw/daw_fnv1a_hash.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index 4622500..a4f37b6 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -136,12 +136,19 @@ namespace daw {
 			return hash;
 		}
 
-		template<typename T>
+		template<
+		  typename Pointer,
+		  std::enable_if_t<
+		    ( std::is_pointer_v<Pointer> and
+		      not std::is_same_v<char,
+		                         std::remove_cv_t<std::remove_pointer_t<Pointer>>> ),
+		    std::nullptr_t> = nullptr>
 		[[nodiscard]] constexpr fnv1a_uint_t
-		operator( )( T const *const ptr ) const noexcept {
+		operator( )( Pointer const &ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			assert( ptr );
-			auto bytes = daw::bit_cast<fnv1a_impl::byte_array<sizeof( T )>>( *ptr );
+			auto bytes =
+			  daw::bit_cast<fnv1a_impl::byte_array<sizeof( *ptr )>>( *ptr );
 			for( auto c : bytes ) {
 				hash = hash ^ static_cast<fnv1a_uint_t>( c );
 				hash *= fnv1a_impl::fnv_prime;
-- 
2.43.0


From ba928e24deda59e7f0f94eb86db8f7623f139ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 229/260] fix: fnv1a_hash_t gave a C string with bytes above
 127 another hash than the same characters in a string

---
 include/daw/daw_fnv1a_hash.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/daw/daw_fnv1a_hash.h b/include/daw/daw_fnv1a_hash.h
index a4f37b6..b4d7588 100644
--- a/include/daw/daw_fnv1a_hash.h
+++ b/include/daw/daw_fnv1a_hash.h
@@ -127,8 +127,7 @@ namespace daw {
 		operator( )( char const *ptr ) const noexcept {
 			auto hash = fnv1a_impl::fnv_offset;
 			while( *ptr != '\0' ) {
-				hash = hash ^ static_cast<fnv1a_uint_t>( *ptr );
-				hash *= fnv1a_impl::fnv_prime;
+				hash = append_hash( hash, *ptr );
 				DAW_UNSAFE_BUFFER_FUNC_START
 				++ptr;
 				DAW_UNSAFE_BUFFER_FUNC_STOP
-- 
2.43.0


From 581be64ef6e4085b78690822009c34698b61cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 230/260] fix: siphash24 was wrong for input or keys with bytes
 above 127

---
 include/daw/daw_sip_hash.h | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_sip_hash.h b/include/daw/daw_sip_hash.h
index 7f3f0d9..7217936 100644
--- a/include/daw/daw_sip_hash.h
+++ b/include/daw/daw_sip_hash.h
@@ -52,14 +52,13 @@ namespace daw {
 		template<typename Byte>
 		constexpr uint64_t to_u64( Byte const *const ptr ) noexcept {
 			static_assert( sizeof( Byte ) == 1U );
-			return static_cast<uint64_t>( ptr[0] ) |
-			       static_cast<uint64_t>( ptr[1] ) << 8U |
-			       static_cast<uint64_t>( ptr[2] ) << 16U |
-			       static_cast<uint64_t>( ptr[3] ) << 24U |
-			       static_cast<uint64_t>( ptr[4] ) << 32U |
-			       static_cast<uint64_t>( ptr[5] ) << 40U |
-			       static_cast<uint64_t>( ptr[6] ) << 48U |
-			       static_cast<uint64_t>( ptr[7] ) << 56U;
+			// char may be signed, do not extend its sign into the higher bytes
+			auto const byte = [ptr]( size_t n ) {
+				return static_cast<uint64_t>( static_cast<uint8_t>( ptr[n] ) );
+			};
+			return byte( 0 ) | byte( 1 ) << 8U | byte( 2 ) << 16U |
+			       byte( 3 ) << 24U | byte( 4 ) << 32U | byte( 5 ) << 40U |
+			       byte( 6 ) << 48U | byte( 7 ) << 56U;
 		}
 
 		template<typename Byte>
-- 
2.43.0


From 0dae164edfc68b920faceeebdbc824bd2da92fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 231/260] fix: metro hash64 was wrong when the last odd byte is
 above 127

---
 include/daw/daw_metro_hash.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_metro_hash.h b/include/daw/daw_metro_hash.h
index 8c7df3b..2c66736 100644
--- a/include/daw/daw_metro_hash.h
+++ b/include/daw/daw_metro_hash.h
@@ -116,7 +116,9 @@ namespace daw::metro {
 		}
 
 		if(not buff.empty( )) {
-			hash += static_cast<uint64_t>(buff.front( )) * k3;
+			hash += static_cast<uint64_t>(
+					static_cast<unsigned char>( buff.front( ) )) *
+				k3;
 			hash ^= metro_impl::rotr<37U>( hash ) * k1;
 			buff.remove_prefix( );
 		}
-- 
2.43.0


From 4dc227261a09565dbc6e605add2a28d1b4aa95b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 232/260] fix: generic_hash_t of an object did not compile and
 hashed nothing

---
 include/daw/daw_generic_hash.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index 8971618..e3b84e5 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -180,12 +180,13 @@ namespace daw {
 			return append_hash( hash_init, value );
 		}
 
-		template<typename T>
-		constexpr hash_value_t operator( )( T const *const ptr ) const noexcept {
+		template<typename Pointer, std::enable_if_t<std::is_pointer_v<Pointer>,
+		                                            std::nullptr_t> = nullptr>
+		hash_value_t operator( )( Pointer const &ptr ) const noexcept {
 			auto hash = hash_init;
-			auto bptr = static_cast<uint8_t const *const>( ptr );
-			for( std::size_t n = 0; n < sizeof( T ); ++n ) {
-				append_hash( hash, bptr[n] );
+			auto bptr = reinterpret_cast<std::uint8_t const *>( ptr );
+			for( std::size_t n = 0; n < sizeof( *ptr ); ++n ) {
+				hash = append_hash( hash, bptr[n] );
 			}
 			return hash;
 		}
-- 
2.43.0


From ecb59be6fbef5af51272382d78ed18afda2d0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:25 +0000
Subject: [PATCH 233/260] fix: generic_hash did not take a string that is an
 lvalue

---
 include/daw/daw_generic_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_generic_hash.h b/include/daw/daw_generic_hash.h
index e3b84e5..afc2b34 100644
--- a/include/daw/daw_generic_hash.h
+++ b/include/daw/daw_generic_hash.h
@@ -225,7 +225,7 @@ namespace daw {
 	template<size_t HashBytes = sizeof( genhash_uint_t ), typename StringViewLike,
 	         std::enable_if_t<traits_is_sv::is_string_view_like_v<StringViewLike>,
 	                          std::nullptr_t> = nullptr>
-	auto generic_hash( StringViewLike const &&sv ) noexcept {
+	auto generic_hash( StringViewLike const &sv ) noexcept {
 		return generic_hash<HashBytes>( sv.data( ), sv.size( ) );
 	}
 
-- 
2.43.0


From da63839d2d8186e4550ba788a91311cc801ce0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 234/260] fix: perfect_hash_table could only be made from
 pointers

---
 include/daw/daw_min_perfect_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index e5a9d0e..aa9f946 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -285,7 +285,7 @@ namespace daw {
 
 				auto const success = daw::algorithm::all_of(
 				  bucket.items.begin( ), bucket.items.end( ),
-				  [&]( auto const *const item ) -> bool {
+				  [&]( auto const &item ) -> bool {
 					  hash_result const slot_wanted =
 					    scale_hash( call_hash( item->first, salt ) );
 					  if( slots_claimed[slot_wanted] or
-- 
2.43.0


From e6e7e6656b1977a0909e8d03f999411f98b1b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 235/260] fix: perfect_hash_table gave a key alone in its
 bucket a second slot

---
 include/daw/daw_min_perfect_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index aa9f946..dee1737 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -278,6 +278,7 @@ namespace daw {
 				m_salts[bucket.bucket_index] = -( static_cast<salt_type>( pos ) + 1 );
 				m_keys[pos] = bucket.items[0]->first;
 				m_values[pos] = bucket.items[0]->second;
+				return;
 			}
 
 			for( salt_type salt = 1;; ++salt ) {
-- 
2.43.0


From c98d2cc93a52b86cec2e5abb98a65e5a5eda74a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 236/260] fix: perfect_hash_table was never finished when
 hashes agree in their lower bits

---
 include/daw/daw_min_perfect_hash.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index dee1737..018c2ee 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -108,8 +108,14 @@ namespace daw {
 
 			uintmax_t const s = seed + 1;
 			uintmax_t const h = hash;
-			return static_cast<hash_result>(
-			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) ) );
+			// All bits of the hash must reach the lower ones that select the slot.
+			// Otherwise, hashes that agree in those have the same slot for every seed
+			std::uint64_t result =
+			  s ^ ( h + 0x9e3779b9ULL + ( s << 6ULL ) + ( s >> 2ULL ) );
+			result ^= result >> 33U;
+			result *= 0xff51'afd7'ed55'8ccdULL;
+			result ^= result >> 33U;
+			return static_cast<hash_result>( result );
 		}
 	} // namespace mph_impl
 
-- 
2.43.0


From 4da6c229a48e905fc50d647dc11f224fc35ef8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:50 +0000
Subject: [PATCH 237/260] fix: perfect_hash_table found a default key that was
 never put in

---
 include/daw/daw_min_perfect_hash.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 018c2ee..1e0994c 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -179,14 +179,12 @@ namespace daw {
 				           return lhs.items.size( ) > rhs.items.size( );
 			           } );
 
-			daw::array<bool, m_data_size> slots_claimed{ };
-
 			daw::algorithm::find_if( buckets.cbegin( ), buckets.cend( ),
 			                         [&]( auto const &bucket ) {
 				                         if( bucket.items.empty( ) ) {
 					                         return true;
 				                         }
-				                         find_salt_for_bucket( bucket, slots_claimed );
+				                         find_salt_for_bucket( bucket, m_claimed );
 				                         return false;
 			                         } );
 		}
@@ -198,7 +196,7 @@ namespace daw {
 		[[nodiscard]] constexpr const_mapped_type_pointer
 		find( Key const &key ) const {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_claimed[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -210,12 +208,12 @@ namespace daw {
 
 		[[nodiscard]] constexpr bool contains( Key const &key ) const noexcept {
 			size_type const pos = find_data_index( key );
-			return key_equal{ }( key, m_keys[pos] );
+			return m_claimed[pos] and key_equal{ }( key, m_keys[pos] );
 		}
 
 		[[nodiscard]] constexpr mapped_type_pointer find( Key const &key ) {
 			size_type const pos = find_data_index( key );
-			if( key_equal{ }( key, m_keys[pos] ) ) {
+			if( m_claimed[pos] and key_equal{ }( key, m_keys[pos] ) ) {
 				return &m_values[pos];
 			}
 			return nullptr;
@@ -250,6 +248,7 @@ namespace daw {
 		daw::array<salt_type, m_num_buckets> m_salts{ };
 		daw::array<mapped_type, m_data_size> m_values{ };
 		daw::array<key_type, m_data_size> m_keys{ };
+		daw::array<bool, m_data_size> m_claimed{ };
 		//***************
 
 		template<size_type Space = m_data_size>
-- 
2.43.0


From 4cf155e35f98bdb6330caceb0c138e27374b7f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 238/260] fix: get of a tuple2 did not compile for lvalues that
 are classes and for rvalues

---
 include/daw/daw_tuple2.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index c468b70..2589a8e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -116,7 +116,7 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &get( tuple2_impl::leaf<Index, Ts, true> &tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
@@ -126,22 +126,22 @@ namespace daw {
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, true> const &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts const &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts const &&get( tuple2_impl::leaf<Index, Ts, false> const &&tp ) {
-		return tp.value;
+		return static_cast<Ts const &&>( tp.value );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, true> &&tp ) {
-		return static_cast<Ts const &>( tp );
+		return static_cast<Ts &&>( tp );
 	}
 
 	template<std::size_t Index, typename Ts>
 	constexpr Ts &&get( tuple2_impl::leaf<Index, Ts, false> &&tp ) {
-		return tp.value;
+		return static_cast<Ts &&>( tp.value );
 	}
 
 	template<std::size_t, typename>
-- 
2.43.0


From 1ba4dd49c02e2807cb9fb03f2fb5fe903e8b35f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 239/260] fix: tuple2_cat of one tuple only took an empty one

---
 include/daw/daw_tuple2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index 2589a8e..fb29819 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -210,8 +210,8 @@ namespace daw {
 	}
 
 	template<typename Tuple>
-	constexpr tuple2<> tuple2_cat( Tuple &&tp ) {
-		return { tp };
+	constexpr daw::remove_cvref_t<Tuple> tuple2_cat( Tuple &&tp ) {
+		return DAW_FWD( tp );
 	}
 
 	template<typename T0, typename T1, typename... Tps>
-- 
2.43.0


From e4c5191954a7160106958827cc0941f220005f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 240/260] fix: apply of a tuple2 rvalue passed lvalues and
 moved the function

---
 include/daw/daw_tuple2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index fb29819..a40ea19 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -258,7 +258,7 @@ namespace daw {
 	template<typename Func, typename... Ts>
 	inline constexpr decltype( auto ) apply( tuple2<Ts...> &&tp, Func &&fn ) {
 		return tuple2_impl::apply_impl(
-		  tp, std::move( fn ),
+		  std::move( tp ), DAW_FWD( fn ),
 		  std::make_index_sequence<tuple2_size_v<tuple2<Ts...>>>{ } );
 	}
 } // namespace daw
-- 
2.43.0


From 146aca5c7f2c9255dd7c21efa0a8841b3257dac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 241/260] fix: get and apply of a daw::tuple rvalue gave
 lvalues

---
 include/daw/daw_tuple.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/daw/daw_tuple.h b/include/daw/daw_tuple.h
index 896d748..a9d878e 100644
--- a/include/daw/daw_tuple.h
+++ b/include/daw/daw_tuple.h
@@ -48,11 +48,11 @@ namespace daw::impl {
 			}
 
 			constexpr T &&get( daw::index_constant<N> ) && noexcept {
-				return std::move( m_value );
+				return static_cast<T &&>( m_value );
 			}
 
 			constexpr T const &&get( daw::index_constant<N> ) const && noexcept {
-				return std::move( m_value );
+				return static_cast<T const &&>( m_value );
 			}
 		};
 
@@ -166,12 +166,14 @@ namespace daw {
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<std::size_t N>
 		constexpr decltype( auto ) get( ) const && {
-			return base_type::get( daw::index_constant_v<N> );
+			return static_cast<base_type const &&>( *this ).get(
+			  daw::index_constant_v<N> );
 		}
 
 		template<typename... Vs>
@@ -218,7 +220,12 @@ namespace daw {
 
 	template<std::size_t N, typename... Ts>
 	constexpr decltype( auto ) get( tuple<Ts...> &&tp ) {
-		return tp.template get<N>( );
+		return std::move( tp ).template get<N>( );
+	}
+
+	template<std::size_t N, typename... Ts>
+	constexpr decltype( auto ) get( tuple<Ts...> const &&tp ) {
+		return std::move( tp ).template get<N>( );
 	}
 
 	template<typename... Ts>
-- 
2.43.0


From 25937ab81cced27969c69b63331ecf2268c890fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 242/260] fix: daw::apply only took rvalue tuples

---
 include/daw/daw_apply.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_apply.h b/include/daw/daw_apply.h
index 7da9cf6..7480b51 100644
--- a/include/daw/daw_apply.h
+++ b/include/daw/daw_apply.h
@@ -145,11 +145,11 @@ namespace daw {
 	template<bool use_invoke = true, typename F, typename Tuple>
 	[[nodiscard, maybe_unused]] inline constexpr decltype( auto )
 	apply( F &&f, Tuple &&t ) {
-		static_assert( is_tuple_v<Tuple>,
+		static_assert( is_tuple_v<std::decay_t<Tuple>>,
 		               "Attempt to call apply with invalid arguments.  The "
 		               "arguments must be a std::tuple" );
 		if constexpr( use_invoke ) {
-			if constexpr( std::tuple_size_v<Tuple> == 0 ) {
+			if constexpr( std::tuple_size_v<std::decay_t<Tuple>> == 0 ) {
 				return daw::invoke( DAW_FWD( f ) );
 			} else {
 				return cpp_17_details::apply_details(
@@ -157,7 +157,7 @@ namespace daw {
 				  std::make_index_sequence<std::tuple_size_v<std::decay_t<Tuple>>>{ } );
 			}
 		} else {
-			constexpr std::size_t tp_size = std::tuple_size_v<Tuple>;
+			constexpr std::size_t tp_size = std::tuple_size_v<std::decay_t<Tuple>>;
 			if constexpr( tp_size == 0 ) {
 				return DAW_FWD( f )( );
 			} else {
-- 
2.43.0


From 87f3911e5e794f3f3134c8542a0e3e3e0f7abd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 243/260] fix: get of a std::tuple by index did not compile for
 a tuple with a type twice

---
 include/daw/daw_tuple_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 31d8bf6..029724b 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -44,8 +44,8 @@ namespace daw {
 				if( index != Tpos ) {
 					return get_impl<Tpos + 1, Result>( DAW_FWD( tp ), index );
 				}
-				return daw::construct_a<Result>(
-				  std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
+				return Result( std::in_place_index<Tpos>,
+				               std::ref( std::get<Tpos>( DAW_FWD( tp ) ) ) );
 			}
 		} // namespace tuple_details
 	} // namespace tuple
-- 
2.43.0


From 80633e392537a56da3578fbe96bf82599aeb3184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:28 +0000
Subject: [PATCH 244/260] fix: apply_at did not compile for an rvalue tuple

---
 include/daw/daw_tuple_helper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple_helper.h b/include/daw/daw_tuple_helper.h
index 029724b..859a34d 100644
--- a/include/daw/daw_tuple_helper.h
+++ b/include/daw/daw_tuple_helper.h
@@ -456,7 +456,8 @@ namespace daw {
 		constexpr void apply_at( std::tuple<Args...> &&tp, size_t index,
 		                         Funcs &&...funcs ) {
 			tuple_details::apply_at_impl( std::move( tp ), index,
-			                              daw::overload( DAW_FWD( funcs )... ) );
+			                              daw::overload( DAW_FWD( funcs )... ),
+			                              std::index_sequence_for<Args...>{ } );
 		}
 
 		namespace tuple_details {
-- 
2.43.0


From eb6fb728fbffdeec4101329ad58da7d3507d427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:26 +0000
Subject: [PATCH 245/260] fix: tuple2_cat did not compile for rvalues

---
 include/daw/daw_tuple2.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index a40ea19..04f781e 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -221,7 +221,8 @@ namespace daw {
 		    std::index_sequence<tuple2_size_v<daw::remove_cvref_t<T0>>,
 		                        tuple2_size_v<daw::remove_cvref_t<T1>>,
 		                        tuple2_size_v<daw::remove_cvref_t<Tps>>...>>{ },
-		  forward_as_tuple2( DAW_FWD( t0 ), DAW_FWD( t1 ), DAW_FWD( tps )... ) );
+		  tuple2<T0 &&, T1 &&, Tps &&...>{ DAW_FWD( t0 ), DAW_FWD( t1 ),
+		                                   DAW_FWD( tps )... } );
 	}
 
 	namespace tuple2_impl {
-- 
2.43.0


From 766be0860fa4509ed28f0596c0afa2abe7962dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:26 +0000
Subject: [PATCH 246/260] fix: get of a tuple2 that holds a tuple2 was
 ambiguous

---
 include/daw/daw_tuple2.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_tuple2.h b/include/daw/daw_tuple2.h
index 04f781e..22dc93c 100644
--- a/include/daw/daw_tuple2.h
+++ b/include/daw/daw_tuple2.h
@@ -22,7 +22,18 @@
 #include <utility>
 
 namespace daw {
+	template<typename... Ts>
+	struct tuple2;
+
 	namespace tuple2_impl {
+		// A tuple2 has leaves of its own and cannot be a base of a leaf
+		template<typename T>
+		inline constexpr bool is_base_leaf_v =
+		  std::is_class_v<T> and not std::is_final_v<T>;
+
+		template<typename... Ts>
+		inline constexpr bool is_base_leaf_v<tuple2<Ts...>> = false;
+
 		DAW_ATTRIB_INLINE constexpr std::size_t
 		encode_location( std::size_t outter, std::size_t inner ) {
 			constexpr std::size_t half_sz = bit_count_v<std::size_t> / 2U;
@@ -73,8 +84,7 @@ namespace daw {
 
 		template<std::size_t... Index, typename... Ts>
 		struct tuple2_base<std::index_sequence<Index...>, Ts...>
-		  : leaf<Index, Ts,
-		         ( std::is_class_v<Ts> and not std::is_final_v<Ts> )>... {};
+		  : leaf<Index, Ts, is_base_leaf_v<Ts>>... {};
 	} // namespace tuple2_impl
 
 	template<typename... Ts>
-- 
2.43.0


From 99a3315e1eaf7b6744f6f3784e0388331a45a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:03 +0000
Subject: [PATCH 247/260] fix: perfect_hash_table was never finished for some
 evenly spaced hashes

---
 include/daw/daw_min_perfect_hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/daw/daw_min_perfect_hash.h b/include/daw/daw_min_perfect_hash.h
index 1e0994c..e390aab 100644
--- a/include/daw/daw_min_perfect_hash.h
+++ b/include/daw/daw_min_perfect_hash.h
@@ -115,6 +115,8 @@ namespace daw {
 			result ^= result >> 33U;
 			result *= 0xff51'afd7'ed55'8ccdULL;
 			result ^= result >> 33U;
+			result *= 0xc4ce'b9fe'1a85'ec53ULL;
+			result ^= result >> 33U;
 			return static_cast<hash_result>( result );
 		}
 	} // namespace mph_impl
-- 
2.43.0


From 25aa79e76a9ae6aff3848b6d7c79d72e324e7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:50 +0000
Subject: [PATCH 248/260] fix: keep_n in descending order let equal values
 displace earlier ones and lost an element inserted again

---
 include/daw/daw_keep_n.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/daw/daw_keep_n.h b/include/daw/daw_keep_n.h
index 818a6c6..8f6ee09 100644
--- a/include/daw/daw_keep_n.h
+++ b/include/daw/daw_keep_n.h
@@ -32,21 +32,21 @@ namespace daw {
 			  std::is_nothrow_move_constructible_v<Function> )
 			  : func( std::move( f ) ) {}
 
-			template<typename... Args>
-			constexpr decltype( auto ) operator( )( Args &&...args ) {
+			template<typename Lhs, typename Rhs>
+			constexpr decltype( auto ) operator( )( Lhs &&lhs, Rhs &&rhs ) {
 				if constexpr( Order == keep_n_order::ascending ) {
-					return func( DAW_FWD( args )... );
+					return func( DAW_FWD( lhs ), DAW_FWD( rhs ) );
 				} else {
-					return not func( DAW_FWD( args )... );
+					return func( DAW_FWD( rhs ), DAW_FWD( lhs ) );
 				}
 			}
 
-			template<typename... Args>
-			constexpr decltype( auto ) operator( )( Args &&...args ) const {
+			template<typename Lhs, typename Rhs>
+			constexpr decltype( auto ) operator( )( Lhs &&lhs, Rhs &&rhs ) const {
 				if constexpr( Order == keep_n_order::ascending ) {
-					return func( DAW_FWD( args )... );
+					return func( DAW_FWD( lhs ), DAW_FWD( rhs ) );
 				} else {
-					return not func( DAW_FWD( args )... );
+					return func( DAW_FWD( rhs ), DAW_FWD( lhs ) );
 				}
 			}
 		};
-- 
2.43.0


From a360ad486c310d9aa7b46cb670f552ba2da9f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 249/260] fix: hash of a not_null did not compile

---
 include/daw/daw_not_null.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index db2540b..a0a0883 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -444,8 +444,7 @@ namespace daw {
 template<typename Pointer>
 struct std::hash<daw::not_null<Pointer>> {
 	[[nodiscard]] auto operator( )( daw::not_null<Pointer> value ) const
-	  -> decltype( std::hash<decltype( std::declval<Pointer>( ) )>{ }(
-	    value.get( ) ) ) {
-		return std::hash<decltype( std::declval<Pointer>( ) )>{ }( value.get( ) );
+	  -> decltype( std::hash<Pointer>{ }( value.get( ) ) ) {
+		return std::hash<Pointer>{ }( value.get( ) );
 	}
 };
-- 
2.43.0


From e105ae4af2afa43062e85fef1b1fddc2c12b1d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 250/260] fix: get of a const not_null did not compile for
 pointers that are classes

---
 include/daw/daw_not_null.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_not_null.h b/include/daw/daw_not_null.h
index a0a0883..3c3c784 100644
--- a/include/daw/daw_not_null.h
+++ b/include/daw/daw_not_null.h
@@ -150,7 +150,7 @@ namespace daw {
 			DAW_ASSUME( m_ptr != null_value );
 		}
 
-		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer_reference
+		[[nodiscard]] DAW_ATTRIB_INLINE constexpr pointer_const_reference
 		get( ) const noexcept {
 			DAW_ASSUME( m_ptr != null_value );
 			return m_ptr;
-- 
2.43.0


From 04e75d9fea5aec58d4c5dfc19f16720704792300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 251/260] fix: conversion between observer_ptrs did not compile

---
 include/daw/daw_observer_ptr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/daw/daw_observer_ptr.h b/include/daw/daw_observer_ptr.h
index 117b897..aaa68de 100644
--- a/include/daw/daw_observer_ptr.h
+++ b/include/daw/daw_observer_ptr.h
@@ -37,7 +37,7 @@ namespace daw {
 		requires( not std::same_as<T, U> and
 		          std::convertible_to<
 		            U *, T *> ) constexpr observer_ptr( observer_ptr<U> other )
-		  : m_ptr( other.m_ptr ) {}
+		  : m_ptr( other.get( ) ) {}
 
 		constexpr observer_ptr &operator=( pointer p ) {
 			m_ptr = p;
-- 
2.43.0


From 2132a10ba212a09d953cc8ea445fd5a20a2a1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 252/260] fix: postfix ++ and -- of prop_const_ptr returned a
 dangling reference

---
 include/daw/daw_prop_const_ptr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index 46064b8..d2988af 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -79,7 +79,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator++( int ) {
+		constexpr prop_const_ptr operator++( int ) {
 			auto result = *this;
 			++m_ptr;
 			return result;
@@ -90,7 +90,7 @@ namespace daw {
 			return *this;
 		}
 
-		constexpr prop_const_ptr &operator--( int ) {
+		constexpr prop_const_ptr operator--( int ) {
 			auto result = *this;
 			--m_ptr;
 			return result;
-- 
2.43.0


From 2f3459bbd3fb2232be2ef3a330d05404ac019fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 253/260] fix: + of a const prop_const_ptr did not compile

---
 include/daw/daw_prop_const_ptr.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/daw/daw_prop_const_ptr.h b/include/daw/daw_prop_const_ptr.h
index d2988af..62b2c63 100644
--- a/include/daw/daw_prop_const_ptr.h
+++ b/include/daw/daw_prop_const_ptr.h
@@ -112,7 +112,8 @@ namespace daw {
 			return result;
 		}
 
-		constexpr prop_const_ptr operator+( difference_type d ) const {
+		constexpr prop_const_ptr<value_type const>
+		operator+( difference_type d ) const {
 			auto result = prop_const_ptr<std::add_const_t<value_type>>( m_ptr );
 			result += d;
 			return result;
-- 
2.43.0


From 74e453192c9322bcc17df67f089cab41f9d178c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:01 +0000
Subject: [PATCH 254/260] fix: the const get of sbo_storage asserted the wrong
 place and did not compile

---
 include/daw/daw_sbo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 6c343de..ea15fe2 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -46,11 +46,11 @@ namespace daw {
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
 			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
-				assert( engaged == engaged_types::allocated );
+				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
 				assert( engaged == engaged_types::allocated );
-				return *reinterpret_cast<T const **>( &data );
+				return *reinterpret_cast<T const *const *>( &data );
 			}
 		}
 
-- 
2.43.0


From e53ea2984c9d75793b613cd625941c81967baeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:01 +0000
Subject: [PATCH 255/260] fix: allocate of sbo_storage did not compile for
 lvalues

---
 include/daw/daw_sbo.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index ea15fe2..afe26fb 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -72,10 +72,10 @@ namespace daw {
 		}
 
 		template<typename T, typename Allocator = std::allocator<
-		                       std::remove_cv_t<std::remove_cv_t<T>>>>
-		std::remove_cv_t<T> *allocate( T &&value,
-		                               Allocator const &alloc = Allocator{ } ) {
-			using base_type = std::remove_cv_t<T>;
+		                       std::remove_cv_t<std::remove_reference_t<T>>>>
+		std::remove_cv_t<std::remove_reference_t<T>> *
+		allocate( T &&value, Allocator const &alloc = Allocator{ } ) {
+			using base_type = std::remove_cv_t<std::remove_reference_t<T>>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
 			if constexpr( sizeof( base_type ) <= storage_size ) {
-- 
2.43.0


From ddc162b1108fd975ae4327c3950a1ca5312f909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:01 +0000
Subject: [PATCH 256/260] fix: sbo_storage put objects with a stricter
 alignment into its buffer

---
 include/daw/daw_sbo.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index afe26fb..9dc65d8 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -27,13 +27,17 @@ namespace daw {
 
 		daw::aligned_storage_t<storage_size, Align> data{ };
 
+		template<typename T>
+		static constexpr bool is_local_v =
+		  sizeof( T ) <= storage_size and alignof( T ) <= Align;
+
 		enum class engaged_types : std::uint8_t { none, local, allocated };
 
 		engaged_types engaged = engaged_types::none;
 
 		template<typename T>
 		[[nodiscard]] T *get( ) {
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T *>( &data );
 			} else {
@@ -45,7 +49,7 @@ namespace daw {
 
 		template<typename T, typename AllocatedType = T>
 		[[nodiscard]] T const *get( ) const {
-			if constexpr( sizeof( AllocatedType ) <= storage_size ) {
+			if constexpr( is_local_v<AllocatedType> ) {
 				assert( engaged == engaged_types::local );
 				return reinterpret_cast<T const *>( &data );
 			} else {
@@ -58,7 +62,7 @@ namespace daw {
 		         typename Allocator = std::allocator<std::remove_cv_t<T>>>
 		void deallocate( Allocator const &alloc = Allocator{ } ) {
 			static_assert( not std::is_array_v<T>, "Arrays unsupported" );
-			if constexpr( sizeof( T ) <= storage_size ) {
+			if constexpr( is_local_v<T> ) {
 				assert( engaged == engaged_types::local );
 				get<T>( )->~T( );
 			} else {
@@ -78,7 +82,7 @@ namespace daw {
 			using base_type = std::remove_cv_t<std::remove_reference_t<T>>;
 			static_assert( not std::is_array_v<base_type>, "Arrays unsupported" );
 			assert( engaged == engaged_types::none );
-			if constexpr( sizeof( base_type ) <= storage_size ) {
+			if constexpr( is_local_v<base_type> ) {
 				if constexpr( std::is_aggregate_v<base_type> ) {
 					auto *result = new( &data ) base_type{ DAW_FWD( value ) };
 					engaged = engaged_types::local;
-- 
2.43.0


From 1ee00b1d7ac91c60031742834475c4eb901a0cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:01 +0000
Subject: [PATCH 257/260] fix: sbo_storage leaked the allocation when the
 constructor threw

---
 include/daw/daw_sbo.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/daw/daw_sbo.h b/include/daw/daw_sbo.h
index 9dc65d8..8d1bf72 100644
--- a/include/daw/daw_sbo.h
+++ b/include/daw/daw_sbo.h
@@ -101,8 +101,20 @@ namespace daw {
 				// Store pointer from allocator in buffer
 				new( &data ) base_type_ptr{ ptr };
 				// Construct new value from passed value at location from allocator
+				struct allocation_guard {
+					Allocator &allocator;
+					base_type_ptr ptr;
+
+					~allocation_guard( ) {
+						if( ptr ) {
+							std::allocator_traits<Allocator>::deallocate( allocator, ptr, 1 );
+						}
+					}
+				};
+				auto guard = allocation_guard{ allocator, ptr };
 				std::allocator_traits<Allocator>::construct( allocator, ptr,
 				                                             DAW_FWD( value ) );
+				guard.ptr = nullptr;
 				engaged = engaged_types::allocated;
 				return ptr;
 			}
-- 
2.43.0


From 1b8aa9c95d1a11eb46abc1cc03ef358834cd9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 258/260] fix: set by index of a piecewise factory did not
 compile for classes that are not trivial

---
 include/daw/daw_piecewise_factory.h | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/include/daw/daw_piecewise_factory.h b/include/daw/daw_piecewise_factory.h
index 241d128..c2882b6 100644
--- a/include/daw/daw_piecewise_factory.h
+++ b/include/daw/daw_piecewise_factory.h
@@ -117,22 +117,11 @@ namespace daw {
 			using value_t =
 			  decltype( remove_layer_func( std::declval<tp_val_t>( ) ) );
 
-			auto const setter = daw::overload(
-			  [&]( value_t const &v ) {
-				  std::get<N>( tp ) = value_t{ v };
-			  },
-			  [&]( value_t &&v ) {
-				  std::get<N>( tp ) = value_t{ std::move( v ) };
-			  },
-			  [&]( std::function<value_t( )> const &f ) {
-				  std::get<N>( tp ) = value_t{ f( ) };
-			  },
-			  [&]( std::function<value_t( )> &&f ) {
-				  std::get<N>( tp ) = value_t{ std::move( f )( ) };
-			  },
-			  []( ... ) noexcept {} );
-
-			setter( DAW_FWD( value ) );
+			if constexpr( std::is_convertible_v<Value, value_t> ) {
+				std::get<N>( tp ) = static_cast<value_t>( DAW_FWD( value ) );
+			} else if constexpr( std::is_invocable_r_v<value_t, Value> ) {
+				std::get<N>( tp ) = static_cast<value_t>( DAW_FWD( value )( ) );
+			}
 		}
 
 		template<typename T, typename... Args>
-- 
2.43.0


From 24cbfecb85fafa92b9c7f8c52d8608e9969a3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 259/260] fix: * of a poly_var returned a copy that did not
 live

---
 include/daw/daw_poly_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_poly_var.h b/include/daw/daw_poly_var.h
index aa909d5..d4b90f5 100644
--- a/include/daw/daw_poly_var.h
+++ b/include/daw/daw_poly_var.h
@@ -37,13 +37,13 @@ namespace daw {
 		}
 
 		[[nodiscard]] constexpr Base const &operator*( ) const {
-			return daw::visit_nt( m_value, []( auto const &value ) {
+			return daw::visit_nt( m_value, []( auto const &value ) -> Base const & {
 				return *static_cast<Base const *>( &value );
 			} );
 		}
 
 		[[nodiscard]] constexpr Base &operator*( ) {
-			return daw::visit_nt( m_value, []( auto &value ) {
+			return daw::visit_nt( m_value, []( auto &value ) -> Base & {
 				return *static_cast<Base *>( &value );
 			} );
 		}
-- 
2.43.0


From 9128fddd0fbd471a5284dae19bcf1654210edd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:54 +0000
Subject: [PATCH 260/260] fix: iteration of a const simple_array did not
 compile

---
 include/daw/daw_simple_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/daw/daw_simple_array.h b/include/daw/daw_simple_array.h
index ca7a874..fe5136a 100644
--- a/include/daw/daw_simple_array.h
+++ b/include/daw/daw_simple_array.h
@@ -20,7 +20,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
@@ -86,7 +86,7 @@ namespace daw {
 		using pointer = value_type *;
 		using const_pointer = value_type const *;
 		using iterator = pointer;
-		using const_iterator = pointer;
+		using const_iterator = const_pointer;
 		using reference = value_type &;
 		using const_reference = value_type const &;
 		using size_type = std::size_t;
-- 
2.43.0

