From 94d3fdbb8dcbadf28f9b68300810f85d71c672ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 01/54] fix: free the destination when move assigning an Array
 or SortedArray

The previous values were neither destroyed nor freed.
---
 src/Array.hpp       |  8 +++++++-
 src/SortedArray.hpp | 13 +++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 69fc34e..d14f939 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -185,13 +185,19 @@ public:
   }
 
   /**
-   * @brief Move assignment operator, performs a shallow copy of rhs.
+   * @brief Move assignment operator, frees the current values and performs a shallow copy of rhs.
    * @param rhs Source for the assignment.
    * @return *this.
    */
   LVARRAY_HOST_DEVICE
   Array & operator=( Array && rhs )
   {
+    if( this == &rhs )
+    {
+      return *this;
+    }
+
+    bufferManipulation::free( this->m_dataBuffer, this->size() );
     ParentClass::operator=( std::move( rhs ) );
 
     for( int i = 0; i < NDIM; ++i )
diff --git a/src/SortedArray.hpp b/src/SortedArray.hpp
index 58ea36f..f5a6181 100644
--- a/src/SortedArray.hpp
+++ b/src/SortedArray.hpp
@@ -106,12 +106,21 @@ public:
   }
 
   /**
-   * @brief Default move assignment operator, performs a shallow copy.
+   * @brief Move assignment operator, frees the current values and performs a shallow copy.
    * @param src the SortedArray to be moved from.
    * @return *this.
    */
   inline
-  SortedArray & operator=( SortedArray && src ) = default;
+  SortedArray & operator=( SortedArray && src )
+  {
+    if( this != &src )
+    {
+      bufferManipulation::free( this->m_values, size() );
+      ParentClass::operator=( std::move( src ) );
+    }
+
+    return *this;
+  }
 
   ///@}
 
-- 
2.43.0


From 915c573c9d14dc4006b29034b95e925ca0960cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 02/54] fix: destroy each value right after it is moved out of
 in shiftUp

Values were constructed in place of moved from values that had not been destroyed.
---
 src/arrayManipulation.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 9cf25ee..b9d9a1a 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -338,11 +338,10 @@ void shiftUp( T * const LVARRAY_RESTRICT ptr,
   {
     std::ptrdiff_t const curIndex = i - 1;
     new ( ptr + curIndex + n ) T( std::move( ptr[ curIndex ] ) );
-  }
 
-  // Delete the values moved out of.
-  std::ptrdiff_t const bounds = (index + n < size) ? index + n : size;
-  destroy( ptr + index, bounds - index );
+    // Destroy the value moved out of, another value may be constructed in its place.
+    ptr[ curIndex ].~T();
+  }
 }
 
 /**
-- 
2.43.0


From 4207232bbec26abdec9da04eb36c525cc44128d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 03/54] fix: do not forward the arguments used to initialize
 several new values

With an rvalue only the first of the new values was initialized from it.
---
 src/arrayManipulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index b9d9a1a..97d4f47 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -303,7 +303,8 @@ void resize( T * const LVARRAY_RESTRICT ptr,
   {
     for( std::ptrdiff_t i = size; i < newSize; ++i )
     {
-      new ( ptr + i ) T( std::forward< ARGS >( args )... );
+      // The arguments must not be forwarded since they are used for each of the new values.
+      new ( ptr + i ) T( args ... );
     }
   }
 }
-- 
2.43.0


From bb0d28f1e03590eed0281a7e47ebf986b686347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 04/54] fix: allow arguments that refer to values of the
 container that grows

emplace_back, emplace, emplaceBack, resizeDefault and resizeArray used the
arguments after the values had been moved or the allocation freed.
---
 src/Array.hpp              |  6 ++-
 src/ArrayOfArrays.hpp      | 81 +++++++++++++++++++++++++++++---------
 src/arrayManipulation.hpp  |  5 ++-
 src/bufferManipulation.hpp | 26 ++++++++++--
 4 files changed, 93 insertions(+), 25 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index d14f939..942058a 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -438,7 +438,11 @@ public:
    */
   LVARRAY_HOST_DEVICE
   void resizeDefault( INDEX_TYPE const newdim, T const & defaultValue )
-  { resizeDefaultDimension( newdim, defaultValue ); }
+  {
+    // The default value may refer to a value in the Array, which the resizing can move.
+    T const value( defaultValue );
+    resizeDefaultDimension( newdim, value );
+  }
 
   /**
    * @brief Sets the size of the Array to zero and destroys all the values.
diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index 1ce2231..fd3ac6b 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -347,8 +347,17 @@ public:
   template< typename ... ARGS >
   void emplaceBack( INDEX_TYPE const i, ARGS && ... args )
   {
-    dynamicallyGrowArray( i, 1 );
-    ParentClass::emplaceBack( i, std::forward< ARGS >( args )... );
+    if( sizeOfArray( i ) + 1 > capacityOfArray( i ) )
+    {
+      // The arguments may refer to a value that is about to be moved.
+      T newValue( std::forward< ARGS >( args )... );
+      dynamicallyGrowArray( i, 1 );
+      ParentClass::emplaceBack( i, std::move( newValue ) );
+    }
+    else
+    {
+      ParentClass::emplaceBack( i, std::forward< ARGS >( args )... );
+    }
   }
 
   /**
@@ -378,8 +387,17 @@ public:
   template< typename ... ARGS >
   void emplace( INDEX_TYPE const i, INDEX_TYPE const j, ARGS && ... args )
   {
-    dynamicallyGrowArray( i, 1 );
-    ParentClass::emplace( i, j, std::forward< ARGS >( args )... );
+    if( sizeOfArray( i ) + 1 > capacityOfArray( i ) )
+    {
+      // The arguments may refer to a value that is about to be moved.
+      T newValue( std::forward< ARGS >( args )... );
+      dynamicallyGrowArray( i, 1 );
+      ParentClass::emplace( i, j, std::move( newValue ) );
+    }
+    else
+    {
+      ParentClass::emplace( i, j, std::forward< ARGS >( args )... );
+    }
   }
 
   /**
@@ -400,28 +418,29 @@ public:
 
   using ParentClass::eraseFromArray;
 
+  /**
+   * @brief Set the number of values in an array, any new values are value initialized.
+   * @param i the array to resize.
+   * @param newSize the value to set the size of the array to.
+   */
+  void resizeArray( INDEX_TYPE const i, INDEX_TYPE const newSize )
+  { resizeArrayImpl( i, newSize ); }
+
   /**
    * @brief Set the number of values in an array.
+   * @tparam ARG The type of @p arg.
    * @tparam ARGS variadic template parameter of the types used to initialize any new values with.
    * @param i the array to resize.
    * @param newSize the value to set the size of the array to.
-   * @param args variadic parameter pack of the arguments used to initialize any new values with.
+   * @param arg the first of the arguments used to initialize any new values with.
+   * @param args variadic parameter pack of the other arguments used to initialize any new values with.
    */
-  template< class ... ARGS >
-  void resizeArray( INDEX_TYPE const i, INDEX_TYPE const newSize, ARGS && ... args )
+  template< class ARG, class ... ARGS >
+  void resizeArray( INDEX_TYPE const i, INDEX_TYPE const newSize, ARG && arg, ARGS && ... args )
   {
-    ARRAYOFARRAYS_CHECK_BOUNDS( i );
-    LVARRAY_ASSERT( arrayManipulation::isPositive( newSize ) );
-
-    if( newSize > capacityOfArray( i ) )
-    {
-      setCapacityOfArray( i, newSize );
-    }
-
-    INDEX_TYPE const prevSize = sizeOfArray( i );
-    T * const values = (*this)[i];
-    arrayManipulation::resize( values, prevSize, newSize, std::forward< ARGS >( args )... );
-    this->m_sizes[ i ] = newSize;
+    // The arguments may refer to a value that the resizing moves.
+    T const value( std::forward< ARG >( arg ), std::forward< ARGS >( args )... );
+    resizeArrayImpl( i, newSize, value );
   }
 
   /**
@@ -466,6 +485,30 @@ public:
 
 private:
 
+  /**
+   * @brief Set the number of values in an array.
+   * @tparam ARGS variadic template parameter of the types used to initialize any new values with.
+   * @param i the array to resize.
+   * @param newSize the value to set the size of the array to.
+   * @param args variadic parameter pack of the arguments used to initialize any new values with.
+   */
+  template< class ... ARGS >
+  void resizeArrayImpl( INDEX_TYPE const i, INDEX_TYPE const newSize, ARGS const & ... args )
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( i );
+    LVARRAY_ASSERT( arrayManipulation::isPositive( newSize ) );
+
+    if( newSize > capacityOfArray( i ) )
+    {
+      setCapacityOfArray( i, newSize );
+    }
+
+    INDEX_TYPE const prevSize = sizeOfArray( i );
+    T * const values = (*this)[i];
+    arrayManipulation::resize( values, prevSize, newSize, args ... );
+    this->m_sizes[ i ] = newSize;
+  }
+
   /**
    * @brief Dynamically grow the capacity of an array.
    * @param i the array to grow.
diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 97d4f47..176cc66 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -481,9 +481,12 @@ void emplace( T * const LVARRAY_RESTRICT ptr,
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
+  // The arguments may refer to one of the values that is about to be shifted.
+  T newValue( std::forward< ARGS >( args ) ... );
+
   // Create space for the new value.
   shiftUp( ptr, size, index, std::ptrdiff_t( 1 ) );
-  new ( ptr + index ) T( std::forward< ARGS >( args ) ... );
+  new ( ptr + index ) T( std::move( newValue ) );
 }
 
 /**
diff --git a/src/bufferManipulation.hpp b/src/bufferManipulation.hpp
index 62b9453..6c51f42 100644
--- a/src/bufferManipulation.hpp
+++ b/src/bufferManipulation.hpp
@@ -298,8 +298,17 @@ void emplaceBack( BUFFER & buf, std::ptrdiff_t const size, ARGS && ... args )
 {
   check( buf, size );
 
-  dynamicReserve( buf, size, size + 1 );
-  arrayManipulation::emplaceBack( buf.data(), size, std::forward< ARGS >( args ) ... );
+  if( size + 1 > buf.capacity() )
+  {
+    // The arguments may refer to a value in the allocation that is about to be replaced.
+    typename BUFFER::value_type newValue( std::forward< ARGS >( args ) ... );
+    dynamicReserve( buf, size, size + 1 );
+    arrayManipulation::emplaceBack( buf.data(), size, std::move( newValue ) );
+  }
+  else
+  {
+    arrayManipulation::emplaceBack( buf.data(), size, std::forward< ARGS >( args ) ... );
+  }
 }
 
 /**
@@ -319,8 +328,17 @@ void emplace( BUFFER & buf,
 {
   checkInsert( buf, size, pos );
 
-  dynamicReserve( buf, size, size + 1 );
-  arrayManipulation::emplace( buf.data(), size, pos, std::forward< ARGS >( args ) ... );
+  if( size + 1 > buf.capacity() )
+  {
+    // The arguments may refer to a value in the allocation that is about to be replaced.
+    typename BUFFER::value_type newValue( std::forward< ARGS >( args ) ... );
+    dynamicReserve( buf, size, size + 1 );
+    arrayManipulation::emplace( buf.data(), size, pos, std::move( newValue ) );
+  }
+  else
+  {
+    arrayManipulation::emplace( buf.data(), size, pos, std::forward< ARGS >( args ) ... );
+  }
 }
 
 /**
-- 
2.43.0


From 8095fef7698150fd326e61feb7b71a176fb17ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 05/54] fix: modify the values of an ArrayView with a deep copy
 buffer in setValues

The kernel captured a copy of the values.
---
 src/ArrayView.hpp | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index cbbf669..78fbbe8 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -608,11 +608,11 @@ public:
   template< typename POLICY >
   void setValues( T const & value ) const
   {
-    auto const view = toView();
+    auto const values = captureValues( std::integral_constant< bool, BUFFER_TYPE< T >::hasShallowCopy > {} );
     RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ),
-                            [value, view] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
+                            [value, values] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
       {
-        view.data()[ i ] = value;
+        values.data()[ i ] = value;
       } );
   }
 
@@ -650,10 +650,10 @@ public:
                                "This method only works with Arrays with the same data layout." );
     }
 
-    auto const view = toView();
-    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [view, rhs] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
+    auto const values = captureValues( std::integral_constant< bool, BUFFER_TYPE< T >::hasShallowCopy > {} );
+    RAJA::forall< POLICY >( RAJA::TypedRangeSegment< INDEX_TYPE >( 0, size() ), [values, rhs] LVARRAY_HOST_DEVICE ( INDEX_TYPE const i )
       {
-        view.data()[ i ] = rhs.data()[ i ];
+        values.data()[ i ] = rhs.data()[ i ];
       } );
   }
 
@@ -744,6 +744,31 @@ protected:
     m_singleParameterResizeIndex{ 0 }
   {}
 
+  /**
+   * @brief @return A view that a kernel can capture by value in order to modify the values of this.
+   */
+  ArrayView captureValues( std::true_type ) const
+  { return toView(); }
+
+  /// Refers to values without copying them.
+  struct ValuesReference
+  {
+    /// @return A pointer to the values.
+    LVARRAY_HOST_DEVICE inline constexpr
+    T * data() const
+    { return m_data; }
+
+    /// The values.
+    T * m_data;
+  };
+
+  /**
+   * @brief @return A reference that a kernel can capture by value in order to modify the values of this.
+   * @note Copying the buffer is a deep copy, so a captured view would modify its own values.
+   */
+  ValuesReference captureValues( std::false_type ) const
+  { return ValuesReference { data() }; }
+
   /// the dimensions of the array.
   typeManipulation::CArray< INDEX_TYPE, NDIM > m_dims = { 0 };
 
-- 
2.43.0


From 03fbcff75dd44c896c18805c215507f1ce97bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 06/54] fix: copy assign ragged containers onto themselves,
 from empty and moved-from ones, and over more arrays

---
 src/ArrayOfArrays.hpp     |  1 -
 src/ArrayOfArraysView.hpp | 24 ++++++++++++++++++------
 src/ArrayOfSets.hpp       |  1 -
 src/CRSMatrix.hpp         |  1 -
 src/SparsityPattern.hpp   |  1 -
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index fd3ac6b..faf465f 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -169,7 +169,6 @@ public:
   ArrayOfArrays & operator=( ArrayOfArrays const & src )
   {
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 7aebc59..19f0001 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -818,7 +818,6 @@ protected:
    * @tparam PAIRS_OF_BUFFERS variadic template where each type is an PairOfBuffers.
    * @brief Set this ArrayOfArraysView equal to the provided arrays.
    * @param srcNumArrays The number of arrays in source.
-   * @param srcMaxOffset The maximum offset in the source.
    * @param srcOffsets the source offsets array.
    * @param srcSizes the source sizes array.
    * @param srcValues the source values array.
@@ -827,23 +826,36 @@ protected:
    */
   template< class ... PAIRS_OF_BUFFERS >
   void setEqualTo( INDEX_TYPE const srcNumArrays,
-                   INDEX_TYPE const srcMaxOffset,
                    BUFFER_TYPE< INDEX_TYPE > const & srcOffsets,
                    BUFFER_TYPE< INDEX_TYPE > const & srcSizes,
                    BUFFER_TYPE< T > const & srcValues,
                    PAIRS_OF_BUFFERS && ... pairs )
   {
+    // Nothing to do when copying onto itself.
+    if( &srcOffsets == &m_offsets ) return;
+
     destroyValues( 0, m_numArrays, pairs.first ... );
 
     INDEX_TYPE const offsetsSize = ( m_numArrays == 0 ) ? 0 : m_numArrays + 1;
 
-    bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
+    if( srcNumArrays > 0 )
+    {
+      bufferManipulation::copyInto( m_offsets, offsetsSize, srcOffsets, srcNumArrays + 1 );
+    }
+    else
+    {
+      // The offsets of an empty source might not be allocated.
+      bufferManipulation::resize( m_offsets, offsetsSize, 1, 0 );
+      m_offsets[ 0 ] = 0;
+    }
+
     bufferManipulation::copyInto( m_sizes, m_numArrays, srcSizes, srcNumArrays );
 
-    INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
-    typeManipulation::forEachArg( [maxOffset, srcMaxOffset]( auto & dstBuffer )
+    // All the values have been destroyed.
+    INDEX_TYPE const srcMaxOffset = m_offsets[ srcNumArrays ];
+    typeManipulation::forEachArg( [srcMaxOffset]( auto & dstBuffer )
     {
-      bufferManipulation::reserve( dstBuffer, maxOffset, MemorySpace::host, srcMaxOffset );
+      bufferManipulation::reserve( dstBuffer, 0, MemorySpace::host, srcMaxOffset );
     }, m_values, pairs.first ... );
 
     m_numArrays = srcNumArrays;
diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index c8b7519..707d0db 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -99,7 +99,6 @@ public:
   ArrayOfSets & operator=( ArrayOfSets const & src )
   {
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index ddd786c..5c5f6a0 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -102,7 +102,6 @@ public:
   {
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values,
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 652d5e5..13258d7 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -97,7 +97,6 @@ public:
   {
     this->m_numCols = src.m_numCols;
     ParentClass::setEqualTo( src.m_numArrays,
-                             src.m_offsets[ src.m_numArrays ],
                              src.m_offsets,
                              src.m_sizes,
                              src.m_values );
-- 
2.43.0


From d0cbfb0dee922b4ba08206640674916c3c2eb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 07/54] fix: allow inserting a value of the container into a
 set or row that grows

---
 src/ArrayOfSets.hpp | 11 ++++++++++-
 src/CRSMatrix.hpp   | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index 707d0db..9ab4994 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -375,7 +375,16 @@ public:
    */
   inline
   bool insertIntoSet( INDEX_TYPE const i, T const & val )
-  { return ParentClass::insertIntoSetImpl( i, val, CallBacks( *this, i ) ); }
+  {
+    if( sizeOfSet( i ) + 1 > capacityOfSet( i ) )
+    {
+      // The value may be in another set and be moved when this one grows.
+      T const newValue( val );
+      return ParentClass::insertIntoSetImpl( i, newValue, CallBacks( *this, i ) );
+    }
+
+    return ParentClass::insertIntoSetImpl( i, val, CallBacks( *this, i ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index 5c5f6a0..cfd08fd 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -375,7 +375,16 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    if( numNonZeros( row ) + 1 > nonZeroCapacity( row ) )
+    {
+      // The entry may be one of this matrix and be moved when the row grows.
+      T const newEntry( entry );
+      return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &newEntry ) );
+    }
+
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
-- 
2.43.0


From d3fb7f9a4a023e6d2ecad8cc3a681a6c70468a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 08/54] fix: report only as much outer capacity as the offsets
 have room for

---
 src/ArrayOfArraysView.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 19f0001..737e583 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -366,11 +366,12 @@ public:
   /**
    * @return Return the number of (zero length) arrays that can be stored before reallocation.
    */
-  LVARRAY_HOST_DEVICE CONSTEXPR_WITH_NDEBUG inline
+  LVARRAY_HOST_DEVICE constexpr inline
   INDEX_TYPE_NC capacity() const
   {
-    LVARRAY_ASSERT( m_sizes.capacity() < m_offsets.capacity());
-    return m_sizes.capacity();
+    // The two buffers grow independently and m_offsets contains one more value than m_sizes.
+    if( m_sizes.capacity() < m_offsets.capacity() ) return m_sizes.capacity();
+    return m_offsets.capacity() > 0 ? m_offsets.capacity() - 1 : 0;
   }
 
   /**
-- 
2.43.0


From 7bd0342ce83e6d155354ba2632f39a6a52e63e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 09/54] fix: compare with <= in LVARRAY_ERROR_IF_LE and
 LVARRAY_THROW_IF_LE

---
 src/Macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Macros.hpp b/src/Macros.hpp
index aa8fe6f..da2ce11 100644
--- a/src/Macros.hpp
+++ b/src/Macros.hpp
@@ -446,7 +446,7 @@
  * @param lhs expression to be evaluated and used as left-hand side in comparison
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  */
-#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_GE_MSG( lhs, rhs, "" )
+#define LVARRAY_ERROR_IF_LE( lhs, rhs ) LVARRAY_ERROR_IF_LE_MSG( lhs, rhs, "" )
 
 /**
  * @brief Throw an exception if one value compares less than or equal to the other.
@@ -454,7 +454,7 @@
  * @param rhs expression to be evaluated and used as right-hand side in comparison
  * @param TYPE the type of exception to throw
  */
-#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_GE_MSG( lhs, rhs, "", TYPE )
+#define LVARRAY_THROW_IF_LE( lhs, rhs, TYPE ) LVARRAY_THROW_IF_LE_MSG( lhs, rhs, "", TYPE )
 
 /**
  * @brief Abort execution if @p lhs @p OP @p rhs is false.
-- 
2.43.0


From 608d371b0c0bef7d47d0c3453e3d5d2babb95609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 10/54] fix: close the pipe and wait for the child when
 addr2line cannot be read

---
 src/system.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index 019fe66..af16589 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -26,6 +26,7 @@
 #include <unwind.h>
 
 #if defined( LVARRAY_ADDR2LINE_EXEC )
+  #include <cerrno>
   #include <unistd.h>
   #include <sys/wait.h>
 #endif
@@ -195,6 +196,12 @@ public:
 
     m_file = fdopen( pdes[ 0 ], "r" );
     close( pdes[ 1 ] );
+
+    if( !m_file )
+    {
+      close( pdes[ 0 ] );
+      reap();
+    }
   }
 
   /**
@@ -210,13 +217,21 @@ public:
     if( m_file )
     {
       fclose( m_file );
-      int pstat = 0;
-      kill( m_pid, SIGKILL );
-      waitpid( m_pid, &pstat, 0 );
+      reap();
     }
   }
 
 private:
+
+  /// Kill the child process and wait for it.
+  void reap() const
+  {
+    int pstat = 0;
+    kill( m_pid, SIGKILL );
+    while( waitpid( m_pid, &pstat, 0 ) == -1 && errno == EINTR )
+    {}
+  }
+
   /// A file pointer to the output of the addr2line execution.
   FILE * m_file;
 
-- 
2.43.0


From 3687e5b1cc22f865a5f51cb861cb4d9c810ca4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 11/54] fix: restore the signal handlers from before the first
 setSignalHandling

---
 src/system.cpp | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/system.cpp b/src/system.cpp
index af16589..1cd5abc 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -505,25 +505,33 @@ void stackTraceHandler( int const sig, bool const exit )
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 void setSignalHandling( void (* handler)( int ) )
 {
-  initialHandler[SIGHUP] = signal( SIGHUP, handler );
-  initialHandler[SIGINT] = signal( SIGINT, handler );
-  initialHandler[SIGQUIT] = signal( SIGQUIT, handler );
-  initialHandler[SIGILL] = signal( SIGILL, handler );
-  initialHandler[SIGTRAP] = signal( SIGTRAP, handler );
-  initialHandler[SIGABRT] = signal( SIGABRT, handler );
+  auto const setHandler = []( int const sig, handle_type const newHandler )
+  {
+    handle_type const previousHandler = signal( sig, newHandler );
+
+    // Only the first handler replaced is the initial one.
+    initialHandler.emplace( sig, previousHandler );
+  };
+
+  setHandler( SIGHUP, handler );
+  setHandler( SIGINT, handler );
+  setHandler( SIGQUIT, handler );
+  setHandler( SIGILL, handler );
+  setHandler( SIGTRAP, handler );
+  setHandler( SIGABRT, handler );
 #if  (defined(_POSIX_C_SOURCE) && !defined(_DARWIN_C_SOURCE))
-  initialHandler[SIGPOLL] = signal( SIGPOLL, handler );
+  setHandler( SIGPOLL, handler );
 #else
-  initialHandler[SIGIOT] = signal( SIGIOT, handler );
-  initialHandler[SIGEMT] = signal( SIGEMT, handler );
+  setHandler( SIGIOT, handler );
+  setHandler( SIGEMT, handler );
 #endif
-  initialHandler[SIGFPE] = signal( SIGFPE, handler );
-  initialHandler[SIGKILL] = signal( SIGKILL, handler );
-  initialHandler[SIGBUS] = signal( SIGBUS, handler );
-  initialHandler[SIGSEGV] = signal( SIGSEGV, handler );
-  initialHandler[SIGSYS] = signal( SIGSYS, handler );
-  initialHandler[SIGPIPE] = signal( SIGPIPE, handler );
-  initialHandler[SIGTERM] = signal( SIGTERM, handler );
+  setHandler( SIGFPE, handler );
+  setHandler( SIGKILL, handler );
+  setHandler( SIGBUS, handler );
+  setHandler( SIGSEGV, handler );
+  setHandler( SIGSYS, handler );
+  setHandler( SIGPIPE, handler );
+  setHandler( SIGTERM, handler );
 
   return;
 }
@@ -535,6 +543,8 @@ void resetSignalHandling()
   {
     signal( a.first, a.second );
   }
+
+  initialHandler.clear();
 }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2f5e0a8a890385aad92dcf2fabd4c936cf0bc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 12/54] fix: do not trap on floating point exceptions raised
 before they were enabled

---
 src/system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/system.cpp b/src/system.cpp
index 1cd5abc..16967c3 100644
--- a/src/system.cpp
+++ b/src/system.cpp
@@ -575,6 +575,8 @@ int enableFloatingPointExceptions( int const exceptions )
 
   return fesetenv( &fenv ) ? -1 : oldExcepts;
 #else
+  // An exception that was raised while it was disabled must not trap now.
+  feclearexcept( exceptions );
   int const oldExceptions = feenableexcept( exceptions );
   LVARRAY_ERROR_IF_EQ( oldExceptions, -1 );
   return oldExceptions;
-- 
2.43.0


From e9c2515874404bdab915880335608bf4aeb4e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 13/54] fix: do not split more ranges than introsortLoop can
 remember

---
 src/sortedArrayManipulationHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sortedArrayManipulationHelpers.hpp b/src/sortedArrayManipulationHelpers.hpp
index be6765b..2c845b4 100644
--- a/src/sortedArrayManipulationHelpers.hpp
+++ b/src/sortedArrayManipulationHelpers.hpp
@@ -650,9 +650,9 @@ LVARRAY_HOST_DEVICE inline void introsortLoop( RandomAccessIterator first, Rando
   {
     RandomAccessIterator const m_first = ranges[nRanges - 1];
 
-    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD )
+    // If there is no room left to split the range leave it to the insertion sort.
+    if( ranges[nRanges] - m_first > INTROSORT_THRESHOLD && nRanges < MAX_RANGES )
     {
-      LVARRAY_ASSERT( nRanges < MAX_RANGES );
       ranges[nRanges + 1] = ranges[nRanges];
       ranges[nRanges] = unguardedPartitionPivot( m_first, ranges[nRanges], comp );
       ++nRanges;
-- 
2.43.0


From ad990c564b9c1b4eef5d816f0b4e993363c9265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 14/54] fix: report invalid values in array input instead of
 throwing std::out_of_range

---
 src/input.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input.hpp b/src/input.hpp
index fde15d5..066436f 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -62,9 +62,13 @@ struct StringToArrayHelper
   {
     inputStream >> arrayValue;
 
-    LVARRAY_ERROR_IF( inputStream.fail(),
+    bool const failed = inputStream.fail();
+
+    // The position can only be queried once the failure has been cleared.
+    inputStream.clear();
+    LVARRAY_ERROR_IF( failed,
                       "Invalid value of type " << typeid(T).name() << " in: " <<
-                      ( inputStream.eof()  ?  "" : inputStream.str().substr( inputStream.tellg() ) ) );
+                      inputStream.str().substr( inputStream.tellg() ) );
   }
 
   /**
-- 
2.43.0


From ba76f37afe1166656cda60695eb17f91f67eed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 15/54] fix: refuse array input that is nested deeper than the
 array

---
 src/input.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input.hpp b/src/input.hpp
index 066436f..6581434 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -234,6 +234,10 @@ static void stringToArray( Array< T, NDIM, PERMUTATION, INDEX_TYPE, BUFFER_TYPE
     if( c=='{' )
     {
       ++dimLevel;
+      LVARRAY_ERROR_IF( dimLevel>=NDIM,
+                        "The expression is nested deeper than the number of dimensions of the array("<<NDIM<<
+                        "). The values that have been parsed prior to the error are:\n"<<
+                        valueString.substr( 0, charCount+1 ) );
     }
     else if( c=='}' )
     {
-- 
2.43.0


From bc219369e68c5d43a95c9faf5ff4830e09834d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 16/54] fix: refuse array input with two values where one
 belongs

---
 src/input.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input.hpp b/src/input.hpp
index 6581434..4e60663 100644
--- a/src/input.hpp
+++ b/src/input.hpp
@@ -62,7 +62,8 @@ struct StringToArrayHelper
   {
     inputStream >> arrayValue;
 
-    bool const failed = inputStream.fail();
+    // Each value is followed by the space that replaced its delimiter.
+    bool const failed = inputStream.fail() || inputStream.peek() != ' ';
 
     // The position can only be queried once the failure has been cleared.
     inputStream.clear();
-- 
2.43.0


From 684ee6e01c64e314e1742e570053c6fc3ecbf49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 17/54] fix: allow inserting an empty range into an array
 without a buffer in debug builds

---
 src/arrayManipulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 176cc66..6bce81d 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -508,7 +508,7 @@ void insert( T * const LVARRAY_RESTRICT ptr,
              ITERATOR first,
              std::ptrdiff_t const n )
 {
-  LVARRAY_ASSERT( ptr != nullptr );
+  LVARRAY_ASSERT( ptr != nullptr || (size == 0 && n == 0) );
   LVARRAY_ASSERT( isPositive( size ) );
   ARRAYMANIPULATION_CHECK_INSERT_BOUNDS( index );
 
-- 
2.43.0


From 6cbeac74cd66ee920139e92ce23aa9f336418ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 18/54] fix: allow viewing the values as larger ones whatever
 the spare capacity

---
 src/ChaiBuffer.hpp   | 3 ++-
 src/MallocBuffer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 7a3bfd5..8fb3c19 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -229,12 +229,13 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @note Spare capacity of @p src that is too small to hold a value of type @c T is not part of the capacity.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   ChaiBuffer( ChaiBuffer< U > const & src ):
     m_pointer( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) ),
+    m_capacity( src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) ) / static_cast< std::ptrdiff_t >( sizeof( T ) ) ),
     m_pointerRecord( &src.pointerRecord() )
   {}
 
diff --git a/src/MallocBuffer.hpp b/src/MallocBuffer.hpp
index f40051a..780f4db 100644
--- a/src/MallocBuffer.hpp
+++ b/src/MallocBuffer.hpp
@@ -83,12 +83,13 @@ public:
    * @brief Create a shallow copy of @p src but with a different type.
    * @tparam U The type to convert from.
    * @param src The buffer to copy.
+   * @note Spare capacity of @p src that is too small to hold a value of type @c T is not part of the capacity.
    */
   template< typename U >
   LVARRAY_HOST_DEVICE inline constexpr
   MallocBuffer( MallocBuffer< U > const & src ):
     m_data( reinterpret_cast< T * >( src.data() ) ),
-    m_capacity( typeManipulation::convertSize< T, U >( src.capacity() ) )
+    m_capacity( src.capacity() * static_cast< std::ptrdiff_t >( sizeof( U ) ) / static_cast< std::ptrdiff_t >( sizeof( T ) ) )
   {}
 
   /**
-- 
2.43.0


From e1df7413a41e6febbe9713789b1fa226105953d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 19/54] fix: check both ends of a dimension index whenever
 bounds are checked

---
 src/ArraySlice.hpp | 2 ++
 src/ArrayView.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index b4e2234..caa451e 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -190,6 +190,7 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
@@ -203,6 +204,7 @@ public:
   INDEX_TYPE stride( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
+    LVARRAY_ERROR_IF_LT( dim, 0 );
     LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_strides[ dim ];
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 78fbbe8..354e5f6 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -416,8 +416,8 @@ public:
   INDEX_TYPE size( int const dim ) const noexcept
   {
 #ifdef LVARRAY_BOUNDS_CHECK
-    LVARRAY_ASSERT_GE( dim, 0 );
-    LVARRAY_ASSERT_GT( NDIM, dim );
+    LVARRAY_ERROR_IF_LT( dim, 0 );
+    LVARRAY_ERROR_IF_GE( dim, NDIM );
 #endif
     return m_dims[ dim ];
   }
-- 
2.43.0


From 33f076b7ab3c1ceb9c410720bab81f415bea9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 20/54] fix: check the capacity of an inner array before values
 are appended

---
 src/ArrayOfArraysView.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 737e583..306c3c3 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -486,9 +486,11 @@ public:
   {
     ARRAYOFARRAYS_CHECK_BOUNDS( i );
 
-    T * const ptr = m_values.data() + m_offsets[ i ];
-    INDEX_TYPE const n = arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
+    INDEX_TYPE const n = arrayManipulation::iterDistance( first, last );
     ARRAYOFARRAYS_CAPACITY_CHECK( i, n );
+
+    T * const ptr = m_values.data() + m_offsets[ i ];
+    arrayManipulation::append( ptr, sizeOfArray( i ), first, last );
     m_sizes[ i ] += n;
   }
 
-- 
2.43.0


From 20df8df9483a254ca5022cb15d6da4166b9f613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 21/54] fix: do not read the size of an inner array that does
 not exist to report it

---
 src/ArrayOfArraysView.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 306c3c3..514da9c 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -43,8 +43,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j >= this->m_sizes[ i ], \
                     "Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " m_sizes[ i ]=" << this->m_sizes[ i ] )
 
@@ -64,8 +64,8 @@
  * @note This is only active when LVARRAY_BOUNDS_CHECK is defined.
  */
 #define ARRAYOFARRAYS_CHECK_INSERT_BOUNDS2( i, j ) \
-  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( i ) || i >= this->size() || \
-                    !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
+  ARRAYOFARRAYS_CHECK_BOUNDS( i ); \
+  LVARRAY_ERROR_IF( !arrayManipulation::isPositive( j ) || j > this->sizeOfArray( i ), \
                     "Insert Bounds Check Failed: i=" << i << " size()=" << this->size() << \
                     " j=" << j << " sizeOfArray( i )=" << this->sizeOfArray( i ) )
 
-- 
2.43.0


From 773cda736ff92ae2ca1dad2a61298dda2e690687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 22/54] fix: do not take the columns behind a row for entries
 when adding with a linear search

---
 src/CRSMatrixView.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 703688c..96d1afe 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -485,6 +485,7 @@ public:
           break;
         }
       }
+      LVARRAY_ASSERT_GT( nnz, curPos );
       LVARRAY_ASSERT_EQ( columns[ curPos ], cols[ i ] );
       internal::atomicAdd( AtomicPolicy{}, entries + curPos, vals[ i ] );
       ++curPos;
-- 
2.43.0


From 10bbef4272759ebd8b080870509d6b38d59b2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 23/54] fix: check the consistency of sets made from arrays
 whenever bounds are checked

---
 src/ArrayOfSets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArrayOfSets.hpp b/src/ArrayOfSets.hpp
index 9ab4994..fbcbd18 100644
--- a/src/ArrayOfSets.hpp
+++ b/src/ArrayOfSets.hpp
@@ -166,7 +166,7 @@ public:
       }
     }
 
-#ifdef ARRAY_BOUNDS_CHECK
+#ifdef LVARRAY_BOUNDS_CHECK
     consistencyCheck();
 #endif
   }
-- 
2.43.0


From 709e3359702c05cd87bef30846da75a971b24b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:12 +0000
Subject: [PATCH 24/54] fix: check the columns that are inserted into or
 removed from patterns and matrices

---
 src/CRSMatrix.hpp       | 14 +++++++++++++-
 src/CRSMatrixView.hpp   | 30 +++++++++++++++++++++++++++---
 src/SparsityPattern.hpp | 17 +++++++++++++++--
 3 files changed, 55 insertions(+), 6 deletions(-)

diff --git a/src/CRSMatrix.hpp b/src/CRSMatrix.hpp
index cfd08fd..3ad831b 100644
--- a/src/CRSMatrix.hpp
+++ b/src/CRSMatrix.hpp
@@ -376,6 +376,9 @@ public:
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry )
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+
     if( numNonZeros( row ) + 1 > nonZeroCapacity( row ) )
     {
       // The entry may be one of this matrix and be moved when the row grows.
@@ -401,7 +404,16 @@ public:
                              COL_TYPE const * const cols,
                              T const * const entriesToInsert,
                              INDEX_TYPE const ncols )
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   using ParentClass::removeNonZero;
   using ParentClass::removeNonZeros;
diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 96d1afe..4d71f55 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -276,7 +276,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col, T const & entry ) const
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row, &entry ) );
+  }
 
   /**
    * @brief Insert a non-zero entries into the given row.
@@ -294,7 +298,16 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 T const * const LVARRAY_RESTRICT entriesToInsert,
                                 INDEX_TYPE const ncols ) const
-  { return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, cols, cols + ncols, CallBacks( *this, row, entriesToInsert ) );
+  }
 
   /**
    * @brief Remove a non-zero entry at the given position.
@@ -304,7 +317,11 @@ public:
    */
   LVARRAY_HOST_DEVICE inline
   bool removeNonZero( INDEX_TYPE const row, COL_TYPE const col ) const
-  { return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr )); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::removeFromSetImpl( row, col, CallBacks( *this, row, nullptr ));
+  }
 
   /**
    * @brief Remove non-zero entries from the given row.
@@ -320,6 +337,13 @@ public:
                                 COL_TYPE const * const LVARRAY_RESTRICT cols,
                                 INDEX_TYPE const ncols ) const
   {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( INDEX_TYPE_NC i = 0; i < ncols; ++i )
+    { SPARSITYPATTERN_COLUMN_CHECK( cols[ i ] ); }
+  #endif
+
     T * const entries = getEntries( row );
     INDEX_TYPE const rowNNZ = numNonZeros( row );
     INDEX_TYPE const nRemoved = ParentClass::removeFromSetImpl( row, cols, cols + ncols, CallBacks( *this, row, nullptr ) );
diff --git a/src/SparsityPattern.hpp b/src/SparsityPattern.hpp
index 13258d7..4b69f1e 100644
--- a/src/SparsityPattern.hpp
+++ b/src/SparsityPattern.hpp
@@ -323,7 +323,11 @@ public:
    */
   inline
   bool insertNonZero( INDEX_TYPE const row, COL_TYPE const col )
-  { return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+    SPARSITYPATTERN_COLUMN_CHECK( col );
+    return ParentClass::insertIntoSetImpl( row, col, CallBacks( *this, row ) );
+  }
 
   /**
    * @tparam ITER An iterator type.
@@ -337,7 +341,16 @@ public:
   template< typename ITER >
   inline
   INDEX_TYPE insertNonZeros( INDEX_TYPE const row, ITER const first, ITER const last )
-  { return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) ); }
+  {
+    ARRAYOFARRAYS_CHECK_BOUNDS( row );
+
+  #ifdef LVARRAY_BOUNDS_CHECK
+    for( ITER iter = first; iter != last; ++iter )
+    { SPARSITYPATTERN_COLUMN_CHECK( *iter ); }
+  #endif
+
+    return ParentClass::insertIntoSetImpl( row, first, last, CallBacks( *this, row ) );
+  }
 
   using ParentClass::removeNonZero;
 
-- 
2.43.0


From c4f235a42fbf06e1e66c08315f8020e6e5a726df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 25/54] fix: stop when MallocBuffer cannot allocate

---
 src/MallocBuffer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MallocBuffer.hpp b/src/MallocBuffer.hpp
index 780f4db..b8ecf4e 100644
--- a/src/MallocBuffer.hpp
+++ b/src/MallocBuffer.hpp
@@ -18,6 +18,7 @@
 #include "bufferManipulation.hpp"
 
 // System includes
+#include <limits>
 #include <stddef.h>
 
 namespace LvArray
@@ -130,8 +131,12 @@ public:
   {
     LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
 
+    LVARRAY_ERROR_IF_GT_MSG( newCapacity, std::numeric_limits< std::ptrdiff_t >::max() / static_cast< std::ptrdiff_t >( sizeof( T ) ),
+                             "The new capacity is too large." );
+
     // TODO: If std::is_trivially_copyable_v< T > then we could use std::realloc.
     T * const newPtr = reinterpret_cast< T * >( std::malloc( newCapacity * sizeof( T ) ) );
+    LVARRAY_ERROR_IF( newPtr == nullptr && newCapacity != 0, "Could not allocate memory for " << newCapacity << " values." );
 
     std::ptrdiff_t const overlapAmount = std::min( newCapacity, size );
     arrayManipulation::uninitializedMove( newPtr, overlapAmount, m_data );
-- 
2.43.0


From 1d86f098326a4566bf042328d0e261bc72387122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 26/54] fix: reserve the space of a new inner array before
 anything is modified

---
 src/ArrayOfArrays.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ArrayOfArrays.hpp b/src/ArrayOfArrays.hpp
index faf465f..25c7c1c 100644
--- a/src/ArrayOfArrays.hpp
+++ b/src/ArrayOfArrays.hpp
@@ -306,6 +306,10 @@ public:
   {
     ARRAYOFARRAYS_CHECK_INSERT_BOUNDS( i );
 
+    // Reserve the space first so that nothing has been modified if that is not possible.
+    bufferManipulation::dynamicReserve( this->m_offsets, this->m_numArrays + 1, this->m_numArrays + 2 );
+    bufferManipulation::dynamicReserve( this->m_sizes, this->m_numArrays, this->m_numArrays + 1 );
+
     // Insert an array of capacity zero at the given location
     INDEX_TYPE const offset = this->m_offsets[ i ];
     bufferManipulation::emplace( this->m_offsets, this->m_numArrays + 1, i + 1, offset );
-- 
2.43.0


From a89aa3f4bd9de83ad78f719ce09ad70462fc01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 27/54] fix: grow all buffers before the values of any is
 shifted

---
 src/ArrayOfArraysView.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index 514da9c..fe585ec 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -899,14 +899,20 @@ protected:
 
     if( capacityIncrease > 0 )
     {
+      // Increase the size of every buffer first so that nothing has been moved if that is not possible.
       INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
       typeManipulation::forEachArg(
-        [this, i, maxOffset, capacityIncrease]( auto & buffer )
+        [maxOffset, capacityIncrease]( auto & buffer )
       {
-        // Increase the size of the buffer.
         bufferManipulation::dynamicReserve( buffer, maxOffset, maxOffset + capacityIncrease );
+      },
+        m_values, buffers ...
+        );
 
-        // Shift up the values.
+      // Shift up the values.
+      typeManipulation::forEachArg(
+        [this, i, capacityIncrease]( auto & buffer )
+      {
         for( INDEX_TYPE array = m_numArrays - 1; array > i; --array )
         {
           INDEX_TYPE const curArraySize = sizeOfArray( array );
-- 
2.43.0


From c8fd1267f456ada31ae9749aae7d00e8fdd17e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 28/54] fix: copy memory that is not from Umpire after the work
 given to the resource before

umpireInterface::copy with a resource fell back to an immediate std::memcpy
while earlier copies on the same resource could still be outstanding, so the
copies took effect out of order.
---
 src/umpireInterface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/umpireInterface.cpp b/src/umpireInterface.cpp
index 9219564..b724f16 100644
--- a/src/umpireInterface.cpp
+++ b/src/umpireInterface.cpp
@@ -58,6 +58,8 @@ camp::resources::Event copy( void * const dstPointer, void * const srcPointer,
   }
 #endif
 
+  // This copy is performed immediately so everything resource was given to do before must be finished first.
+  resource.wait();
   std::memcpy( dstPointer, srcPointer, size );
   return resource.get_event();
 }
-- 
2.43.0


From 6e0bdcc478cf822ef73595756b312a2bfc5789d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:33 +0000
Subject: [PATCH 29/54] fix: moving a ChaiBuffer that was never allocated
 nowhere is not an error on the host

Without CUDA ChaiBuffer::move refused the undefined space, which is what
getPreviousSpace returns for an empty array, so a block copy of an empty array
stopped the program although the CUDA build accepts it.
---
 src/ChaiBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 8fb3c19..61eb063 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -384,7 +384,7 @@ public:
 
     if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
   #else
-    LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
+    LVARRAY_ERROR_IF( space != MemorySpace::host && space != MemorySpace::undefined, "Only host memory is supported." );
     LVARRAY_UNUSED_VARIABLE( size );
     LVARRAY_UNUSED_VARIABLE( touch );
   #endif
@@ -412,7 +412,7 @@ public:
     if( !std::is_const< T >::value && touch ) m_pointerRecord->m_touched[ chaiSpace ] = true;
     m_pointerRecord->m_last_space = chaiSpace;
   #else
-    LVARRAY_ERROR_IF_NE( space, MemorySpace::host );
+    LVARRAY_ERROR_IF( space != MemorySpace::host && space != MemorySpace::undefined, "Only host memory is supported." );
     LVARRAY_UNUSED_VARIABLE( touch );
   #endif
   }
-- 
2.43.0


From d2da626efdf5f0c14197ae4306656b638785a0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 30/54] fix: share one lock for chai between the translation
 units

A static mutex in a header is a different mutex in each translation unit, so
threads that ran code of different units used chai at the same time.
---
 src/ChaiBuffer.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 61eb063..18000b4 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -42,8 +42,15 @@ inline chai::ArrayManager & getArrayManager()
   return arrayManager;
 }
 
-/// chai is not threadsafe so we use a lock to serialize access.
-static std::mutex chaiLock;
+/**
+ * @return The lock used to serialize access to chai, which is not threadsafe.
+ * @note There has to be a single lock, shared by all translation units.
+ */
+inline std::mutex & getChaiLock()
+{
+  static std::mutex chaiLock;
+  return chaiLock;
+}
 
 /**
  * @return The chai::ExecutionSpace corresponding to @p space.
@@ -292,9 +299,9 @@ public:
 
     chai::ExecutionSpace const chaiSpace = internal::toChaiExecutionSpace( space );
 
-    internal::chaiLock.lock();
+    internal::getChaiLock().lock();
     internal::getArrayManager().allocate( newRecord, chaiSpace );
-    internal::chaiLock.unlock();
+    internal::getChaiLock().unlock();
 
     T * const newPointer = static_cast< T * >( newRecord->m_pointers[ chaiSpace ] );
 
@@ -320,7 +327,7 @@ public:
   inline
   void free()
   {
-    std::lock_guard< std::mutex > lock( internal::chaiLock );
+    std::lock_guard< std::mutex > lock( internal::getChaiLock() );
     internal::getArrayManager().free( m_pointerRecord );
     m_capacity = 0;
     m_pointer = nullptr;
-- 
2.43.0


From caa0c91d564a6fc66d2cd3d89ef2df2b2021f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 31/54] fix: touch the inner buffers of nested containers that
 already are in the space

ChaiBuffer::moveNested only moved the inner objects when the outer buffer changed
its space. Capturing a constant view and then a mutable one in the same space did
not touch the inner buffers, and the values written were lost. The inner objects
were also reached through the pointer of the view, which might point to the
device.
---
 src/ChaiBuffer.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index 18000b4..aee2b81 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -383,13 +383,18 @@ public:
         m_capacity == 0 ||
         chaiSpace == chai::NONE ) return;
 
-    chai::ExecutionSpace const prevSpace = m_pointerRecord->m_last_space;
-
-    if( prevSpace == chai::CPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
-
-    move( space, touch );
-
-    if( prevSpace == chai::GPU && prevSpace != chaiSpace ) moveInnerData( space, size, touch );
+    // The inner objects can only be moved on the host. They have to be moved even if this buffer is already in
+    // the right space, since a previous move might not have touched them.
+    if( chaiSpace == chai::CPU )
+    {
+      move( space, touch );
+      moveInnerData( space, size, touch );
+    }
+    else
+    {
+      moveInnerData( space, size, touch );
+      move( space, touch );
+    }
   #else
     LVARRAY_ERROR_IF( space != MemorySpace::host && space != MemorySpace::undefined, "Only host memory is supported." );
     LVARRAY_UNUSED_VARIABLE( size );
@@ -481,9 +486,13 @@ private:
   {
     if( space == MemorySpace::undefined ) return;
 
+    // The data of this object might point to the device.
+    T_non_const * const hostPointer = static_cast< T_non_const * >( m_pointerRecord->m_pointers[ chai::CPU ] );
+    if( hostPointer == nullptr ) return;
+
     for( std::ptrdiff_t i = 0; i < size; ++i )
     {
-      const_cast< T_non_const * >( m_pointer )[ i ].move( space, touch );
+      hostPointer[ i ].move( space, touch );
     }
   }
 
-- 
2.43.0


From b92dc36f7eabfc6a0582e23534a9b2108831c473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 32/54] fix: touch the offsets when compress or
 resizeFromCapacities changes them

As in setCapacityOfArray, the offsets are not touched by a captured view although
the container can then change them. The device kept using the old ones.
---
 src/ArrayOfArraysView.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ArrayOfArraysView.hpp b/src/ArrayOfArraysView.hpp
index fe585ec..09c768c 100644
--- a/src/ArrayOfArraysView.hpp
+++ b/src/ArrayOfArraysView.hpp
@@ -686,6 +686,9 @@ protected:
 
     // Update the last offset.
     m_offsets[ m_numArrays ] = m_offsets[ m_numArrays - 1 ] + sizeOfArray( m_numArrays - 1 );
+
+    // The offsets might not have been touched on the host, see setCapacityOfArray.
+    m_offsets.registerTouch( MemorySpace::host );
   }
 
   /**
@@ -729,6 +732,9 @@ protected:
                                       m_offsets.data() + 1 );
     }
 
+    // The offsets might not have been touched on the host, see setCapacityOfArray.
+    m_offsets.registerTouch( MemorySpace::host );
+
     m_numArrays = numSubArrays;
     INDEX_TYPE const maxOffset = m_offsets[ m_numArrays ];
     typeManipulation::forEachArg( [ maxOffset] ( auto & buffer )
-- 
2.43.0


From a00da37765519adeaad4192e9684ed5c94c2b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 33/54] fix: leave moved-from arrays with the strides of an
 empty array

Values could be added to a moved-from one dimensional array, but its stride
stayed 0 and setValues refused it as having another data layout.
---
 src/Array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 942058a..09c9a9f 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -153,8 +153,8 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       source.m_dims[ i ] = 0;
-      source.m_strides[ i ] = 0;
     }
+    source.m_strides = indexing::calculateStrides< PERMUTATION >( source.m_dims );
   }
 
   /**
@@ -203,8 +203,8 @@ public:
     for( int i = 0; i < NDIM; ++i )
     {
       rhs.m_dims[ i ] = 0;
-      rhs.m_strides[ i ] = 0;
     }
+    rhs.m_strides = indexing::calculateStrides< PERMUTATION >( rhs.m_dims );
 
     return *this;
   }
-- 
2.43.0


From ff8207c2a00387fd178ad5ab174ccdd97d1c7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:02 +0000
Subject: [PATCH 34/54] fix: do not promise that the arguments of emplace are
 outside of the array

With the restrict qualifier the compiler read them after the values had been
shifted when they referred to a value of the array.
---
 src/arrayManipulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrayManipulation.hpp b/src/arrayManipulation.hpp
index 6bce81d..6b50e2f 100644
--- a/src/arrayManipulation.hpp
+++ b/src/arrayManipulation.hpp
@@ -468,11 +468,12 @@ std::ptrdiff_t append( T * const LVARRAY_RESTRICT ptr,
  * @param size The size of the array.
  * @param index The position to insert at.
  * @param args The arguments to forward to construct the new value.
+ * @note @p ptr is not restrict because the arguments may refer to a value in the array.
  */
 DISABLE_HD_WARNING
 template< typename T, typename ... ARGS >
 LVARRAY_HOST_DEVICE inline
-void emplace( T * const LVARRAY_RESTRICT ptr,
+void emplace( T * const ptr,
               std::ptrdiff_t const size,
               std::ptrdiff_t const index,
               ARGS && ... args )
-- 
2.43.0


From 5a6478bb65c4f96c44165714b147b8768d3a84ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:47 +0000
Subject: [PATCH 35/54] fix: release the reference that an assigned PyObjectRef
 held

---
 src/python/pythonHelpers.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/python/pythonHelpers.hpp b/src/python/pythonHelpers.hpp
index 3a5c976..9c500a0 100644
--- a/src/python/pythonHelpers.hpp
+++ b/src/python/pythonHelpers.hpp
@@ -182,28 +182,33 @@ public:
   { internal::xdecref( reinterpret_cast< PyObject * >( m_object ) ); }
 
   /**
-   * @brief Create a new reference to @p src.
+   * @brief Decrease the reference count to the current object and create a new reference to @p src.
    * @param src The object to create a new reference to.
    * @return *this.
    * @note Increases the reference count.
    */
   PyObjectRef & operator=( PyObjectRef const & src )
   {
+    T * const previous = m_object;
     m_object = src.m_object;
-    internal::xincref( reinterpret_cast< PyObject * >( src.m_object ) );
+    internal::xincref( reinterpret_cast< PyObject * >( m_object ) );
+    internal::xdecref( reinterpret_cast< PyObject * >( previous ) );
     return *this;
   }
 
   /**
-   * @brief Steal a reference from @p src.
+   * @brief Decrease the reference count to the current object and steal a reference from @p src.
    * @param src The object to steal a reference to.
    * @return *this.
    * @note Does not increase the reference count.
    */
   PyObjectRef & operator=( PyObjectRef && src )
   {
-    m_object = src.m_object;
+    T * const stolen = src.m_object;
     src.m_object = nullptr;
+    T * const previous = m_object;
+    m_object = stolen;
+    internal::xdecref( reinterpret_cast< PyObject * >( previous ) );
     return *this;
   }
 
-- 
2.43.0


From 5bf41364441fb24b1125e2ade87e9819a955d37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:42 +0000
Subject: [PATCH 36/54] fix: convert strings to Python in full and report those
 that cannot be converted

---
 src/python/pythonHelpers.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/python/pythonHelpers.cpp b/src/python/pythonHelpers.cpp
index 53f737d..0febc85 100644
--- a/src/python/pythonHelpers.cpp
+++ b/src/python/pythonHelpers.cpp
@@ -79,18 +79,29 @@ bool addTypeToModule( PyObject * const module,
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * create( std::string const & value )
-{ return PyUnicode_FromString( value.c_str() ); }
+{ return PyUnicode_FromStringAndSize( value.data(), integerConversion< Py_ssize_t >( value.size() ) ); }
 
 ///////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 PyObject * createPyListOfStrings( std::string const * const strptr, long long const size )
 {
-  PyObject * pylist = PyList_New( size );
+  PyObjectRef<> pylist { PyList_New( integerConversion< Py_ssize_t >( size ) ) };
+  if( pylist == nullptr )
+  {
+    return nullptr;
+  }
+
   for( long long i = 0; i < size; ++i )
   {
-    PyObject * pystr = PyUnicode_FromString( strptr[ i ].c_str() );
-    PyList_SET_ITEM( pylist, integerConversion< Py_ssize_t >( i ), pystr );
+    PyObject * pystr = create( strptr[ i ] );
+    if( pystr == nullptr )
+    {
+      return nullptr;
+    }
+
+    PyList_SET_ITEM( pylist.get(), integerConversion< Py_ssize_t >( i ), pystr );
   }
-  return pylist;
+
+  return pylist.release();
 }
 
 } // namespace python
-- 
2.43.0


From b115211b22452e10face47088ad72a2138f2b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 37/54] fix: free the memory of the Python objects that go away

---
 src/python/PyArray.cpp         | 6 +++++-
 src/python/PyArrayOfArrays.cpp | 6 +++++-
 src/python/PyArrayOfSets.cpp   | 6 +++++-
 src/python/PyCRSMatrix.cpp     | 6 +++++-
 src/python/PySortedArray.cpp   | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8e36b51..86980d8 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -69,7 +69,11 @@ struct PyArray
  * @param self The PyArray to destroy.
  */
 static void PyArray_dealloc( PyArray * const self )
-{ delete self->array; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->array;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 /**
  * @brief The Python __repr__ method for PyArray.
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index d4dcd7c..e6b4778 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfArrays
 };
 
 static void PyArrayOfArrays_dealloc( PyArrayOfArrays * const self )
-{ delete self->arrayOfArrays; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfArrays;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfArrays_repr( PyObject * const obj )
 {
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 33192fd..a93a874 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -68,7 +68,11 @@ struct PyArrayOfSets
 };
 
 static void PyArrayOfSets_dealloc( PyArrayOfSets * const self )
-{ delete self->arrayOfSets; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->arrayOfSets;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyArrayOfSets_repr( PyObject * const obj )
 {
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 9b81a4b..bcebe8c 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -64,7 +64,11 @@ struct PyCRSMatrix
 };
 
 static void PyCRSMatrix_dealloc( PyCRSMatrix * const self )
-{ delete self->matrix; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->matrix;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 static PyObject * PyCRSMatrix_repr( PyObject * const obj )
 {
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index 669ba1e..b23e2b1 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -64,7 +64,11 @@ struct PySortedArray
 
 
 static void PySortedArray_dealloc( PySortedArray * const self )
-{ delete self->sortedArray; Py_XDECREF( self->numpyDtype ); }
+{
+  delete self->sortedArray;
+  Py_XDECREF( self->numpyDtype );
+  Py_TYPE( self )->tp_free( reinterpret_cast< PyObject * >( self ) );
+}
 
 
 static PyObject * PySortedArray_repr( PyObject * const obj )
-- 
2.43.0


From ecf7c22cb7cb507ccb6b05be0ee3bdcf82733a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 38/54] fix: ArrayOfSets.erase_from raises when its values
 cannot be converted

---
 src/python/PyArrayOfSets.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index a93a874..afc012f 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -240,6 +240,11 @@ static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject *
   std::tuple< PyObjectRef< PyObject >, void const *, long long > ret =
     parseNumPyArray( arr, self->arrayOfSets->valueType() );
 
+  if( std::get< 0 >( ret ) == nullptr )
+  {
+    return nullptr;
+  }
+
   return PyLong_FromLongLong( self->arrayOfSets->removeFromSet( index,
                                                                 std::get< 1 >( ret ),
                                                                 std::get< 2 >( ret ) ) );
-- 
2.43.0


From 2708c0eadfe66c5aeb0ff0ac722fb19f2cfcdaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 39/54] fix: check that ragged Python objects are initialized
 in every method

---
 src/python/PyArrayOfArrays.cpp | 7 +++++++
 src/python/PyArrayOfSets.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index e6b4778..283f00c 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfArrays_getitem( PyArrayOfArrays * const self, Py_ssiz
 
 static int PyArrayOfArrays_delitem( PyArrayOfArrays * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfArrays == nullptr, PyExc_RuntimeError, "The PyArrayOfArrays is not initialized.", -1 );
   if( self->arrayOfArrays->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfArrays is not resizeable" );
@@ -157,6 +158,8 @@ static constexpr char const * PyArrayOfArrays_insertIntoDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insertIntoArray( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long array, index;
   PyObject * arr;
@@ -188,6 +191,8 @@ static constexpr char const * PyArrayOfArrays_insertDocString =
   "as the underlying instance, raising an exception if the conversion cannot be made safely.";
 static PyObject * PyArrayOfArrays_insert( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
@@ -216,6 +221,8 @@ static constexpr char const * PyArrayOfArrays_eraseFromDocString =
   "Remove the value at ``index`` in the subarray ``array``.";
 static PyObject * PyArrayOfArrays_eraseFrom( PyArrayOfArrays * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index, begin;
   if( !PyArg_ParseTuple( args, "LL", &index, &begin ) )
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index afc012f..8ca0da4 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -111,6 +111,7 @@ static PyObject * PyArrayOfSets_getitem( PyArrayOfSets * const self, Py_ssize_t
 
 static int PyArrayOfSets_delitem( PyArrayOfSets * const self, Py_ssize_t pyindex, PyObject * val )
 {
+  PYTHON_ERROR_IF( self->arrayOfSets == nullptr, PyExc_RuntimeError, "The PyArrayOfSets is not initialized.", -1 );
   if( self->arrayOfSets->getAccessLevel() < static_cast< int >( LvArray::python::PyModify::RESIZEABLE ) )
   {
     PyErr_SetString( PyExc_RuntimeError, "ArrayOfSets is not resizeable" );
@@ -159,6 +160,8 @@ static constexpr char const * PyArrayOfSets_insertIntoDocString =
   "    The number of values inserted into the set.";
 static PyObject * PyArrayOfSets_insertIntoSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long setIndex;
   PyObject * arr;
@@ -192,6 +195,8 @@ static constexpr char const * PyArrayOfSets_insertSetDocString =
   "Insert a new set with a starting capacity";
 static PyObject * PyArrayOfSets_insertSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   long long capacity = 0;
@@ -223,6 +228,8 @@ static constexpr char const * PyArrayOfSets_removeFromSetDocString =
   "    The number of values removed from the set.";
 static PyObject * PyArrayOfSets_removeFromSet( PyArrayOfSets * self, PyObject * args )
 {
+  VERIFY_NON_NULL_SELF( self );
+  VERIFY_INITIALIZED( self );
   VERIFY_RESIZEABLE( self );
   long long index;
   PyObject * arr;
-- 
2.43.0


From 856a99cd34ce8688d9c55044f402a0b56ce1de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 40/54] fix: CRSMatrix.to_scipy releases its arrays and raises
 without SciPy

---
 src/python/PyCRSMatrix.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index bcebe8c..ede5467 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -171,6 +171,11 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
 
   std::array< PyObject *, 3 > const triple = self->matrix->getEntriesColumnsAndOffsets();
 
+  // Take ownership of the arrays, SciPy creates its own references to them.
+  PyObjectRef<> const entries { triple[ 0 ] };
+  PyObjectRef<> const columns { triple[ 1 ] };
+  PyObjectRef<> const offsets { triple[ 2 ] };
+
   PYTHON_ERROR_IF( triple[ 0 ] == nullptr, PyExc_RuntimeError,
                    "Error constructing the entries NumPy array", nullptr );
 
@@ -181,7 +186,16 @@ static PyObject * PyCRSMatrix_toSciPy( PyCRSMatrix * const self, PyObject * cons
                    "Error constructing the offsets NumPy array", nullptr );
 
   PyObjectRef<> sciPySparse = PyImport_ImportModule( "scipy.sparse" );
+  if( sciPySparse == nullptr )
+  {
+    return nullptr;
+  }
+
   PyObjectRef<> constructor = PyObject_GetAttrString( sciPySparse, "csr_matrix" );
+  if( constructor == nullptr )
+  {
+    return nullptr;
+  }
 
   return PyObject_CallFunction( constructor,
                                 "(OOO)(ll)",
-- 
2.43.0


From 9d7e656877387a711d0f74b02e57fa1bb2ffc367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 41/54] fix: CRSMatrix.add_to_row checks that there are as many
 columns as values

---
 src/python/PyCRSMatrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index ede5467..906d342 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -352,6 +352,9 @@ static PyObject * PyCRSMatrix_addToRow( PyCRSMatrix * const self, PyObject * con
     return nullptr;
   }
 
+  PYTHON_ERROR_IF( std::get< 2 >( colsInfo ) != std::get< 2 >( valsInfo ), PyExc_RuntimeError,
+                   "Number of columns and values must match!", nullptr );
+
   long long const numRows = self->matrix->numRows();
   PYTHON_ERROR_IF( row < 0 || row >= numRows, PyExc_RuntimeError,
                    "Row " << row << " is out of bounds for a matrix with " << numRows << " rows.", nullptr );
-- 
2.43.0


From 88e36231c01fce29964bbb1e2a4d9e9317fd1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 42/54] fix: parseNumPyArray reports a conversion that failed

---
 src/python/numpyHelpers.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index 0929fcc..afe6840 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -267,6 +267,11 @@ parseNumPyArray( PyObject * const obj, std::type_index const expectedType )
                    " to " << getNumPyTypeName( expectedNumPyType ), ErrorReturn );
 
   PyArrayObject * convertedArray = reinterpret_cast< PyArrayObject * >( PyArray_Cast( array, expectedNumPyType ) );
+  if( convertedArray == nullptr )
+  {
+    return ErrorReturn;
+  }
+
   void const * vals = PyArray_DATA( convertedArray );
   long long const nVals = integerConversion< long long >( PyArray_SIZE( convertedArray ) );
   return ReturnType{ reinterpret_cast< PyObject * >( convertedArray ), vals, nVals };
-- 
2.43.0


From b89b0fffa0dc6fd72b75505c9830ea7a9b82cc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 43/54] fix: addPyLvArrayModule keeps the reference that it
 gives to the module

---
 src/python/python.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/python.cpp b/src/python/python.cpp
index 341bab1..d19e976 100644
--- a/src/python/python.cpp
+++ b/src/python/python.cpp
@@ -146,11 +146,18 @@ PyObjectRef<> getModule()
 bool addPyLvArrayModule( PyObject * module )
 {
   LvArray::python::PyObjectRef<> pylvarrayModule { PyImport_ImportModule( "pylvarray" ) };
+  if( pylvarrayModule == nullptr )
+  {
+    return false;
+  }
+
   if( PyModule_AddObject( module, "pylvarray", pylvarrayModule ) < 0 )
   {
     return false;
   }
 
+  // On success PyModule_AddObject stole the reference.
+  pylvarrayModule.release();
   return true;
 }
 
-- 
2.43.0


From f2d52f36cc360f46c634c9be086225484a52969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 44/54] fix: release the Python object of a container whose
 values NumPy does not have

---
 src/python/PyArray.cpp         | 1 +
 src/python/PyArrayOfArrays.cpp | 1 +
 src/python/PyArrayOfSets.cpp   | 1 +
 src/python/PyCRSMatrix.cpp     | 1 +
 src/python/PySortedArray.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 86980d8..8baa7a7 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -298,6 +298,7 @@ PyObject * create( std::unique_ptr< PyArrayWrapperBase > && array )
   PyObject * typeObject = getNumPyTypeObject( array->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfArrays.cpp b/src/python/PyArrayOfArrays.cpp
index 283f00c..b61c391 100644
--- a/src/python/PyArrayOfArrays.cpp
+++ b/src/python/PyArrayOfArrays.cpp
@@ -333,6 +333,7 @@ PyObject * create( std::unique_ptr< PyArrayOfArraysWrapperBase > && arrayOfArray
   PyObject * typeObject = getNumPyTypeObject( arrayOfArrays->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyArrayOfSets.cpp b/src/python/PyArrayOfSets.cpp
index 8ca0da4..f5c75da 100644
--- a/src/python/PyArrayOfSets.cpp
+++ b/src/python/PyArrayOfSets.cpp
@@ -353,6 +353,7 @@ PyObject * create( std::unique_ptr< PyArrayOfSetsWrapperBase > && arrayOfSets )
   PyObject * typeObject = getNumPyTypeObject( arrayOfSets->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PyCRSMatrix.cpp b/src/python/PyCRSMatrix.cpp
index 906d342..2add660 100644
--- a/src/python/PyCRSMatrix.cpp
+++ b/src/python/PyCRSMatrix.cpp
@@ -466,6 +466,7 @@ PyObject * create( std::unique_ptr< PyCRSMatrixWrapperBase > && matrix )
   PyObject * typeObject = getNumPyTypeObject( matrix->entryType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
diff --git a/src/python/PySortedArray.cpp b/src/python/PySortedArray.cpp
index b23e2b1..219c3fd 100644
--- a/src/python/PySortedArray.cpp
+++ b/src/python/PySortedArray.cpp
@@ -253,6 +253,7 @@ PyObject * create( std::unique_ptr< PySortedArrayWrapperBase > && sortedArray )
   PyObject * typeObject = getNumPyTypeObject( sortedArray->valueType() );
   if( typeObject == nullptr )
   {
+    Py_DECREF( ret );
     return nullptr;
   }
 
-- 
2.43.0


From 344225e275bae693da972bda1c41c2e7aa54f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 45/54] fix: Array.resize_all refuses negative dimensions

---
 src/python/PyArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/PyArray.cpp b/src/python/PyArray.cpp
index 8baa7a7..d6a6b1e 100644
--- a/src/python/PyArray.cpp
+++ b/src/python/PyArray.cpp
@@ -182,7 +182,13 @@ static PyObject * PyArray_resizeAll( PyArray * const self, PyObject * const args
   PYTHON_ERROR_IF( std::get< 2 >( ret ) != self->array->ndim(), PyExc_RuntimeError,
                    "Invalid number of dimensions, should be " << self->array->ndim(), nullptr );
 
-  self->array->resize( reinterpret_cast< long long const * >( std::get< 1 >( ret ) ) );
+  long long const * const newDims = reinterpret_cast< long long const * >( std::get< 1 >( ret ) );
+  for( int i = 0; i < self->array->ndim(); ++i )
+  {
+    PYTHON_ERROR_IF( newDims[ i ] < 0, PyExc_ValueError, "Dimensions must be positive.", nullptr );
+  }
+
+  self->array->resize( newDims );
 
   Py_RETURN_NONE;
 }
-- 
2.43.0


From 3d481682a8cc361f166cc930304ea95ad8181370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 46/54] fix: an empty slice is contiguous

Slices with three or more dimensions and no values were reported as not contiguous, so memcpy, begin() and
dataIfContiguous() stopped the program.
---
 src/ArraySlice.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index caa451e..6421feb 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -219,6 +219,7 @@ public:
   {
     if( USD < 0 ) return false;
     if( NDIM == 1 && USD == 0 ) return true;
+    if( size() == 0 ) return true;
 
     bool rval = true;
     for( int i = 0; i < NDIM; ++i )
-- 
2.43.0


From 5bfa56830a9129c6ff44aa0a3336b61cd6d4ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:25 +0000
Subject: [PATCH 47/54] fix: arrays do not compile with
 LVARRAY_USE_TOTALVIEW_OUTPUT

ArrayView::TV_ttf_display_type passed CArray objects where addresses are expected and called
demangle with a template argument, which only demangleType takes.
---
 src/ArrayView.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index 354e5f6..f4ebf82 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,9 +703,9 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangle< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
+      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) );
+      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) );
+      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
       TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
     }
     return 0;
-- 
2.43.0


From 3ebd8b908fb9d2e8908e1b8691e8582805fa812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:25 +0000
Subject: [PATCH 48/54] fix: addresses in the TotalView table are cut or index
 out of the digits

The comparison with the base used only the low 32 bits of the value, as a signed integer.
---
 src/totalview/tv_data_display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 7770087..58b54f4 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -166,7 +166,7 @@ marshal_unsigned_body ( char * buffer, size_t len, size_t val, int base,
   char * my_buffer  = buffer;
   size_t my_len     = len;
 
-  if( (int)val < base )
+  if( val < (size_t) base )
   {
     r = val;
   }
-- 
2.43.0


From 0746c5a41a133c95e107bb5715d201d2769221f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 49/54] fix: the TotalView table overruns its buffer or never
 ends when it is full

The room that remains was computed with the wrong sign, so that the end of the buffer was not seen;
writing a string without room did not advance, and a row that did not fit was not reported as such.
---
 src/totalview/tv_data_display.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/totalview/tv_data_display.c b/src/totalview/tv_data_display.c
index 58b54f4..a47367e 100644
--- a/src/totalview/tv_data_display.c
+++ b/src/totalview/tv_data_display.c
@@ -139,9 +139,10 @@ marshal_string ( char * buffer, size_t len, const char * s,
     ret_val++;
     if( len > 1 )
     {
-      *cursor++ = *s++;
+      *cursor++ = *s;
       len--;
     }
+    s++;
   }
   if( len > 0 )
     *cursor = '\0';
@@ -269,8 +270,8 @@ int TV_ttf_add_row( const char * field_name,
     TV_ttf_data_format_control = TV_FORMAT_APPEND_CALL;
   }
 
-  remaining = TV_ttf_data_buffer_ptr +
-              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_format_buffer;
+  remaining = TV_ttf_data_format_buffer +
+              DATA_FORMAT_BUFFER_SIZE - TV_ttf_data_buffer_ptr;
 
 /*
    out = snprintf(TV_ttf_data_buffer_ptr,
@@ -280,8 +281,12 @@ int TV_ttf_add_row( const char * field_name,
   out = marshal_row ( TV_ttf_data_buffer_ptr, remaining,
                       field_name, type_name, value, 0, 0 );
 
-  if( out < 1 )
+  if( out < 1 || (size_t) out >= remaining )
+  {
+    /* Drop the part of the row that did fit. */
+    *TV_ttf_data_buffer_ptr = '\0';
     return TV_ttf_ec_buffer_exhausted;
+  }
 
   TV_ttf_data_buffer_ptr += out;
 
-- 
2.43.0


From ef116bc12a839d4b772714483beb9a81c78f4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 50/54] fix: TV_ttf_display_type reports success when rows are
 missing

---
 src/ArraySlice.hpp | 12 +++++++-----
 src/ArrayView.hpp  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/ArraySlice.hpp b/src/ArraySlice.hpp
index 6421feb..75d2a2d 100644
--- a/src/ArraySlice.hpp
+++ b/src/ArraySlice.hpp
@@ -357,12 +357,14 @@ public:
       int constexpr ndim = NDIM;
       //std::cout<<"Totalview using ("<<totalview::format<T,INDEX_TYPE>(NDIM, av->m_dims )<<") for display of
       // m_data;"<<std::endl;
-      TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 1, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) );
+      bool ok = true;
+      ok &= TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 1, av->m_dims ).c_str(), (av->m_data) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides) ) == TV_ttf_ec_ok;
+      return ok ? TV_ttf_format_ok : TV_ttf_format_failed;
     }
-    return 0;
+    return TV_ttf_format_ok;
   }
 #endif
 
diff --git a/src/ArrayView.hpp b/src/ArrayView.hpp
index f4ebf82..78a408e 100644
--- a/src/ArrayView.hpp
+++ b/src/ArrayView.hpp
@@ -703,12 +703,14 @@ public:
       // m_data;"<<std::endl;
       // TV_ttf_add_row( "tv(m_data)", totalview::format< T, INDEX_TYPE >( NDIM, av->m_dims ).c_str(), (av->m_data) );
       // TV_ttf_add_row( "m_data", totalview::format< T, INDEX_TYPE >( 0, av->m_dims ).c_str(), (av->m_data) );
-      TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) );
-      TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) );
-      TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) );
-      TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) );
+      bool ok = true;
+      ok &= TV_ttf_add_row( "m_dims", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_dims.data) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_strides", totalview::format< INDEX_TYPE, int >( 1, &ndim ).c_str(), (av->m_strides.data) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_dataBuffer", LvArray::system::demangleType< BUFFER_TYPE< T > >().c_str(), &(av->m_dataBuffer) ) == TV_ttf_ec_ok;
+      ok &= TV_ttf_add_row( "m_singleParameterResizeIndex", "int", &(av->m_singleParameterResizeIndex) ) == TV_ttf_ec_ok;
+      return ok ? TV_ttf_format_ok : TV_ttf_format_failed;
     }
-    return 0;
+    return TV_ttf_format_ok;
   }
 #endif
 
-- 
2.43.0


From b35ce603dfcbdef4c336a1804c146e7c39e94135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:10 +0000
Subject: [PATCH 51/54] fix: do not release the strides and dimensions given to
 CuPy twice

---
 src/python/numpyHelpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/numpyHelpers.cpp b/src/python/numpyHelpers.cpp
index afe6840..d792303 100644
--- a/src/python/numpyHelpers.cpp
+++ b/src/python/numpyHelpers.cpp
@@ -190,8 +190,9 @@ PyObject * createCupyArrayImpl( void * const data,
       return nullptr;
     }
 
-    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry );
-    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry );
+    // The tuples take the references.
+    PyTuple_SET_ITEM( static_cast< PyObject * >( strideTuple ), i, strideEntry.release() );
+    PyTuple_SET_ITEM( static_cast< PyObject * >( dimTuple ), i, dimEntry.release() );
   }
 
   PyObjectRef<> cupyHelper = PyImport_ImportModule( "cupy_helper" );
-- 
2.43.0


From d062c66c127f444d074988900df0cd2000034a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:12 +0000
Subject: [PATCH 52/54] fix: count the bytes of a matrix's entries in
 std::size_t when zeroing it

---
 src/CRSMatrixView.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CRSMatrixView.hpp b/src/CRSMatrixView.hpp
index 4d71f55..e6dea22 100644
--- a/src/CRSMatrixView.hpp
+++ b/src/CRSMatrixView.hpp
@@ -401,7 +401,7 @@ public:
       ParentClass::move( m_entries.getPreviousSpace(), false );
       m_entries.move( m_entries.getPreviousSpace(), true );
 
-      INDEX_TYPE const numBytes = m_entries.capacity() * sizeof( T );
+      std::size_t const numBytes = m_entries.capacity() * sizeof( T );
       umpireInterface::memset( m_entries.data(), 0, numBytes );
     }
   }
-- 
2.43.0


From 9156bea13ef0dc012355ec969b3996ec051316f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:12 +0000
Subject: [PATCH 53/54] fix: release the lock of the array manager and keep the
 allocation when a ChaiBuffer cannot be reallocated

---
 src/ChaiBuffer.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ChaiBuffer.hpp b/src/ChaiBuffer.hpp
index aee2b81..41c423b 100644
--- a/src/ChaiBuffer.hpp
+++ b/src/ChaiBuffer.hpp
@@ -24,6 +24,7 @@
 #include <chai/ArrayManager.hpp>
 
 // System includes
+#include <memory>
 #include <mutex>
 
 
@@ -288,7 +289,7 @@ public:
    */
   void reallocate( std::ptrdiff_t const size, MemorySpace const space, std::ptrdiff_t const newCapacity )
   {
-    chai::PointerRecord * const newRecord = new chai::PointerRecord{};
+    std::unique_ptr< chai::PointerRecord > newRecord( new chai::PointerRecord{} );
     newRecord->m_size = newCapacity * sizeof( T );
     newRecord->m_user_callback = m_pointerRecord->m_user_callback;
 
@@ -299,9 +300,11 @@ public:
 
     chai::ExecutionSpace const chaiSpace = internal::toChaiExecutionSpace( space );
 
-    internal::getChaiLock().lock();
-    internal::getArrayManager().allocate( newRecord, chaiSpace );
-    internal::getChaiLock().unlock();
+    {
+      // The allocation may throw, in which case the lock is released and the current allocation is kept.
+      std::lock_guard< std::mutex > lock( internal::getChaiLock() );
+      internal::getArrayManager().allocate( newRecord.get(), chaiSpace );
+    }
 
     T * const newPointer = static_cast< T * >( newRecord->m_pointers[ chaiSpace ] );
 
@@ -316,7 +319,7 @@ public:
     free();
     m_capacity = newCapacity;
     m_pointer = newPointer;
-    m_pointerRecord = newRecord;
+    m_pointerRecord = newRecord.release();
     registerTouch( space );
   }
 
-- 
2.43.0


From 004206c970dd856c9e1062db0cfbed3059b373e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:12 +0000
Subject: [PATCH 54/54] fix: give an Array new dimensions only after the memory
 for them was allocated

---
 src/Array.hpp | 59 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/Array.hpp b/src/Array.hpp
index 09c9a9f..e015921 100644
--- a/src/Array.hpp
+++ b/src/Array.hpp
@@ -304,13 +304,14 @@ public:
     LVARRAY_ERROR_IF_NE( numDims, NDIM );
 
     INDEX_TYPE const oldSize = this->size();
+    typeManipulation::CArray< INDEX_TYPE, NDIM > allDims = this->m_dims;
     for( int i = 0; i < NDIM; ++i )
     {
-      this->m_dims[ i ] = LvArray::integerConversion< INDEX_TYPE >( dims[ i ] );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ i ], 0 );
+      allDims[ i ] = LvArray::integerConversion< INDEX_TYPE >( dims[ i ] );
+      LVARRAY_ERROR_IF_LT( allDims[ i ], 0 );
     }
 
-    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+    reserveAndSetDims( MemorySpace::host, allDims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
   }
@@ -330,15 +331,17 @@ public:
     static_assert( sizeof ... ( DIMS ) == NDIM, "The number of arguments provided does not equal NDIM!" );
     INDEX_TYPE const oldSize = this->size();
 
+    typeManipulation::CArray< INDEX_TYPE, NDIM > allDims = this->m_dims;
+
     int curDim = 0;
     typeManipulation::forEachArg( [&]( auto const newDim )
     {
-      this->m_dims[ curDim ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ curDim ], 0 );
+      allDims[ curDim ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
+      LVARRAY_ERROR_IF_LT( allDims[ curDim ], 0 );
       ++curDim;
     }, newDims ... );
 
-    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+    reserveAndSetDims( MemorySpace::host, allDims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
   }
@@ -373,19 +376,17 @@ public:
     static_assert( std::is_trivially_destructible< T >::value,
                    "This function is only safe if T is trivially destructable." );
 
-    INDEX_TYPE const oldSize = this->size();
+    typeManipulation::CArray< INDEX_TYPE, NDIM > allDims = this->m_dims;
 
     int i = 0;
     typeManipulation::forEachArg( [&]( auto const newDim )
     {
-      this->m_dims[ i ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ i ], 0 );
+      allDims[ i ] = LvArray::integerConversion< INDEX_TYPE >( newDim );
+      LVARRAY_ERROR_IF_LT( allDims[ i ], 0 );
       ++i;
     }, newDims ... );
 
-    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
-
-    bufferManipulation::reserve( this->m_dataBuffer, oldSize, space, this->size() );
+    reserveAndSetDims( space, allDims );
   }
 
   /**
@@ -407,14 +408,15 @@ public:
     static_assert( typeManipulation::all_of< ( INDICES < NDIM ) ... >::value, "INDICES must all be less than NDIM." );
 
     INDEX_TYPE const oldSize = this->size();
+    typeManipulation::CArray< INDEX_TYPE, NDIM > allDims = this->m_dims;
 
     typeManipulation::forEachArg( [&]( auto const & pair )
     {
-      this->m_dims[ camp::get< 0 >( pair ) ] = LvArray::integerConversion< INDEX_TYPE >( camp::get< 1 >( pair ) );
-      LVARRAY_ERROR_IF_LT( this->m_dims[ camp::get< 0 >( pair ) ], 0 );
+      allDims[ camp::get< 0 >( pair ) ] = LvArray::integerConversion< INDEX_TYPE >( camp::get< 1 >( pair ) );
+      LVARRAY_ERROR_IF_LT( allDims[ camp::get< 0 >( pair ) ], 0 );
     }, camp::make_tuple( INDICES, newDims )... );
 
-    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+    reserveAndSetDims( MemorySpace::host, allDims );
 
     bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size() );
   }
@@ -588,6 +590,20 @@ public:
 
 private:
 
+  /**
+   * @brief Reserve space for the values of an Array with the given dimensions and then set the dimensions.
+   * @param space The space to perform the reserve in.
+   * @param dims The new dimensions.
+   * @note The reserve can throw, in which case the Array is left as it was.
+   */
+  LVARRAY_HOST_DEVICE
+  void reserveAndSetDims( MemorySpace const space, typeManipulation::CArray< INDEX_TYPE, NDIM > const & dims )
+  {
+    bufferManipulation::reserve( this->m_dataBuffer, this->size(), space, indexing::multiplyAll< NDIM >( dims.data ) );
+    this->m_dims = dims;
+    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+  }
+
   /**
    * @brief Resize the default dimension of the Array.
    * @tparam ARGS variadic pack containing the types to initialize the new values with.
@@ -603,13 +619,15 @@ private:
   {
     LVARRAY_ERROR_IF_LT( newDimLength, 0 );
 
+    typeManipulation::CArray< INDEX_TYPE, NDIM > allDims = this->m_dims;
+    allDims[ this->m_singleParameterResizeIndex ] = newDimLength;
+
     // If m_singleParameterResizeIndex is the first dimension in memory than a simple 1D resizing is sufficient. The
     // check if NDIM == 1 is to give the compiler compile time knowledge that this path is always taken for 1D arrays.
     if( NDIM == 1 || typeManipulation::asArray( PERMUTATION {} )[ 0 ] == this->m_singleParameterResizeIndex )
     {
       INDEX_TYPE const oldSize = this->size();
-      this->m_dims[ this->m_singleParameterResizeIndex ] = newDimLength;
-      this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+      reserveAndSetDims( MemorySpace::host, allDims );
 
       bufferManipulation::resize( this->m_dataBuffer, oldSize, this->size(), std::forward< ARGS >( args )... );
       return;
@@ -620,9 +638,8 @@ private:
     INDEX_TYPE const curDimStride = this->m_strides[ this->m_singleParameterResizeIndex ];
     INDEX_TYPE const curSize = this->size();
 
-    // Set the size of the dimension, recalculate the strides and get the new total size.
-    this->m_dims[ this->m_singleParameterResizeIndex ] = newDimLength;
-    this->m_strides = indexing::calculateStrides< PERMUTATION >( this->m_dims );
+    // Make room for the new values, set the size of the dimension, recalculate the strides and get the new total size.
+    reserveAndSetDims( MemorySpace::host, allDims );
 
     INDEX_TYPE const newSize = this->size();
 
@@ -632,8 +649,6 @@ private:
     // If the size is increasing do one thing, if it's decreasing do another.
     if( newDimLength > curDimLength )
     {
-      // Reserve space in the buffer but don't initialize the values.
-      bufferManipulation::reserve( this->m_dataBuffer, curSize, MemorySpace::host, newSize );
       T * const ptr = this->data();
 
       // The resizing consists of iterations where each iteration consists of the addition of a
-- 
2.43.0

