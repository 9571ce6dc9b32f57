From 22c7506f5b8a24a51609e13a6354b70577934b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 01/59] fix: signal slots are neither lost, skipped nor called
 twice when the connections change

---
 include/RenderGraph/Signal.hpp | 46 ++++++++--------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/include/RenderGraph/Signal.hpp b/include/RenderGraph/Signal.hpp
index 3e4d3ca..49e89ef 100644
--- a/include/RenderGraph/Signal.hpp
+++ b/include/RenderGraph/Signal.hpp
@@ -170,7 +170,7 @@ namespace crg
 		*/
 		my_connection connect( Function function )
 		{
-			uint32_t index = uint32_t( m_slots.size() ) + 1u;
+			uint32_t index = m_slots.empty() ? 1u : m_slots.rbegin()->first + 1u;
 			m_slots.emplace( index, function );
 			return my_connection{ index, *this };
 		}
@@ -181,13 +181,14 @@ namespace crg
 		void operator()()const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
 
 			while ( it != m_slots.end() )
 			{
-				it->second();
-				adjustSlots( size, index, it );
+				// The slots may be changed by the slot itself.
+				auto index = it->first;
+				auto function = it->second;
+				function();
+				it = m_slots.upper_bound( index );
 			}
 		}
 		/**
@@ -200,13 +201,14 @@ namespace crg
 		void operator()( Params && ... params )const
 		{
 			auto it = m_slots.begin();
-			size_t size = m_slots.size();
-			size_t index = 0u;
 
 			while ( it != m_slots.end() )
 			{
-				it->second( std::forward< Params >( params )... );
-				adjustSlots( size, index, it );
+				// The slots may be changed by the slot itself.
+				auto index = it->first;
+				auto function = it->second;
+				function( params... );
+				it = m_slots.upper_bound( index );
 			}
 		}
 
@@ -249,32 +251,6 @@ namespace crg
 			assert( m_connections.find( &connection ) != m_connections.end() );
 			m_connections.erase( &connection );
 		}
-		/**
-		*\brief
-		*	Adjusts returned slot iterator.
-		*\param[in,out] size
-		*	The expected size, receives the real size.
-		*\param[in,out] index
-		*	The current iteration index.
-		*/
-		template< typename IterT >
-		void adjustSlots( size_t & size
-			, size_t & index
-			, IterT & it )const noexcept
-		{
-			if ( size != m_slots.size() )
-			{
-				// Slots changed by the slot itself.
-				size = m_slots.size();
-				it = m_slots.begin();
-				std::advance( it, index );
-			}
-			else
-			{
-				++index;
-				++it;
-			}
-		}
 
 	private:
 		std::map< uint32_t, Function > m_slots;
-- 
2.43.0


From 7d02c1199b4828929ad3c97d9987ebb986374daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 02/59] fix: GPU times are in nanoseconds and never wait for
 queries which were not submitted

---
 source/RenderGraph/FramePassTimer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..f6f709c 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -103,7 +103,9 @@ namespace crg
 	void FramePassTimer::beginPass( VkCommandBuffer commandBuffer )noexcept
 	{
 		std::swap( m_queries.front(), m_queries.back() );
-		auto const & query = m_queries.front();
+		auto & query = m_queries.front();
+		query.started = false;
+		query.written = false;
 		m_context.vkCmdResetQueryPool( commandBuffer
 			, m_timerQueries
 			, query.offset
@@ -126,7 +128,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		auto const period = m_context.properties.limits.timestampPeriod;
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +145,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From af9b1d0ea46daf8e1f9c03d1c2a9947dbb5cb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:51 +0000
Subject: [PATCH 03/59] fix: views overlap test uses the layer count of both
 views

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index e232e5c..7d11897 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -321,7 +321,7 @@ namespace crg::builder
 				&& areIntersecting( lhs.baseArrayLayer
 					, lhs.layerCount
 					, rhs.baseArrayLayer
-					, lhs.layerCount );
+					, rhs.layerCount );
 		}
 
 		static bool areOverlapping( ImageViewData const & lhs
-- 
2.43.0


From 4f41f641e0a12db54e59ec0db48ac07b1e30aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 04/59] fix: an attachment split from a merged view refers to
 the split view

---
 source/RenderGraph/Attachment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..d41e737 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -436,6 +436,7 @@ namespace crg
 		, bufferAttach{ origin.bufferAttach }
 		, flags{ origin.flags }
 	{
+		imageAttach.views = { view };
 	}
 
 	Attachment::Attachment( ImageViewId view )
-- 
2.43.0


From 6a90c3ef1fc17e57e1ee8f498abb65e403d41e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 05/59] fix: a remaining dependency is listed in the graph's
 transitions, whatever its position in the pass'

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index 7d11897..ad993bd 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -553,14 +553,14 @@ namespace crg::builder
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				ViewTransition transition{ attach.view(), attach, Attachment::createDefault( attach.view() ) };
 				insertTransition( transition, cache, transitions.viewTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.viewTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
@@ -574,14 +574,14 @@ namespace crg::builder
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, Attachment::createDefault( attach.bufferAttach.buffer ), attach };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
 			else
 			{
 				BufferTransition transition{ attach.bufferAttach.buffer, attach, Attachment::createDefault( attach.bufferAttach.buffer ) };
 				insertTransition( transition, cache, transitions.bufferTransitions );
+				insertTransition( transition, cache, allTransitions );
 			}
-
-			insertTransition( transitions.bufferTransitions.back(), cache, allTransitions );
 		}
 
 		static void addRemainingDependency( Attachment const & attach
-- 
2.43.0


From 2efc8202aeedffaa9e5c228ef6ab7c8ea3db89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 06/59] fix: buffer transfers are part of the buffer
 transitions

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index ad993bd..a7dbe00 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -157,14 +157,14 @@ namespace crg::builder
 			static bool isInput( Attachment const & attach )
 			{
 				return attach.isInput()
-					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransitionBuffer()
+					&& ( attach.isStorageBuffer() || attach.isUniformBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer()
 						|| attach.isStorageBufferView() || attach.isUniformBufferView() || attach.isTransitionBufferView() );
 			}
 
 			static bool isOutput( Attachment const & attach )
 			{
 				return attach.isOutput()
-					&& ( attach.isStorageBuffer() || attach.isStorageBufferView() );
+					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isStorageBufferView() );
 			}
 		};
 
-- 
2.43.0


From 556781a81855b696ff594fd2851aca95f08c896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:18 +0000
Subject: [PATCH 07/59] fix: buffer dependencies between passes consider the
 inputs and outputs of every kind of buffer

---
 source/RenderGraph/FramePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index ea3994a..cf8a175 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -120,7 +120,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isOutput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
@@ -134,7 +134,7 @@ namespace crg
 				, pass.buffers.end()
 				, [&buffer]( Attachment const & lookup )
 				{
-					return lookup.isStorageBuffer()
+					return lookup.isInput()
 						&& lookup.bufferAttach.buffer == buffer;
 				} );
 
-- 
2.43.0


From 437be86fe669771df6b5a9bed7917564bd309f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 08/59] fix: the cache of dependencies between passes does not
 mix up buffers whose handles share their low bits

---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  3 +-
 source/RenderGraph/FramePass.cpp              | 30 ++++---------------
 2 files changed, 8 insertions(+), 25 deletions(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index faa5cf9..318f879 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -68,7 +68,8 @@ namespace crg
 
 	using ImageId = Id< ImageData >;
 	using ImageViewId = Id< ImageViewData >;
-	using DependencyCache = std::unordered_map< size_t, bool >;
+	using DependencyCacheKey = std::pair< uint32_t, uint64_t >;
+	using DependencyCache = std::map< DependencyCacheKey, bool >;
 	using PassDependencyCache = std::unordered_map< FramePass const *, DependencyCache >;
 
 	using FramePassPtr = std::unique_ptr< FramePass >;
diff --git a/source/RenderGraph/FramePass.cpp b/source/RenderGraph/FramePass.cpp
index cf8a175..d878e4a 100644
--- a/source/RenderGraph/FramePass.cpp
+++ b/source/RenderGraph/FramePass.cpp
@@ -155,34 +155,16 @@ namespace crg
 			return result.substr( index );
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyCacheKey makeKey( FramePass const & pass
 			, ImageViewId const & view )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| size_t( view.id );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| size_t( view.id );
-			}
+			return { pass.id, uint64_t( view.id ) };
 		}
 
-		static size_t makeHash( FramePass const & pass
+		static DependencyCacheKey makeKey( FramePass const & pass
 			, Buffer const & buffer )
 		{
-			if constexpr ( sizeof( size_t ) == sizeof( uint64_t ) )
-			{
-				return size_t( pass.id ) << 32u
-					| ( ptrdiff_t( buffer.buffer() ) & 0xFFFFFFFF );
-			}
-			else
-			{
-				return size_t( pass.id ) << 16u
-					| ( ptrdiff_t( buffer.buffer() ) & 0x0000FFFF );
-			}
+			return { pass.id, uint64_t( buffer.buffer() ) };
 		}
 	}
 
@@ -204,7 +186,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, view ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, view ), false );
 
 		if ( res )
 		{
@@ -236,7 +218,7 @@ namespace crg
 		, PassDependencyCache & cache )const
 	{
 		auto & passCache = cache.try_emplace( this ).first->second;
-		auto [rit, res] = passCache.emplace( fpass::makeHash( pass, buffer ), false );
+		auto [rit, res] = passCache.emplace( fpass::makeKey( pass, buffer ), false );
 
 		if ( res )
 		{
-- 
2.43.0


From 063ded54cfc27efe2de41376ff271383305461a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 09/59] fix: every mip range of a 3D image is tracked, and mip
 extents are never 0

---
 source/RenderGraph/FrameGraph.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..eb696ec 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -354,9 +354,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
@@ -626,12 +626,10 @@ namespace crg
 	{
 		VkImageSubresourceRange result = range;
 
-		if ( viewType == VK_IMAGE_VIEW_TYPE_3D
-			&& ( range.levelCount == 1u
-				|| range.levelCount == image.data->info.mipLevels ) )
+		if ( viewType == VK_IMAGE_VIEW_TYPE_3D )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
-- 
2.43.0


From 4f1fb5ea57fc06e35243b870e0d6f18d7c6889d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 10/59] fix: the render area comes from the views of the
 rendered pass index

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..6c026db 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -362,12 +362,11 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
+				auto extent = getMipExtent( view );
 				m_passes[index].attachments.push_back( &attach );
-				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
-				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+				width = std::max( width, extent.width );
+				height = std::max( height, extent.height );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From dc5bebfd3388d538689660224bd99a1f489b7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 11/59] fix: images whose subresources are in various layouts
 are tracked and transitioned per subresource

---
 .../RenderGraph/FrameGraphPrerequisites.hpp   |  2 +
 source/RenderGraph/FrameGraph.cpp             | 22 ++++++++++
 source/RenderGraph/RecordContext.cpp          | 42 +++++++++++++++++++
 source/RenderGraph/RunnableGraph.cpp          | 32 +++++++-------
 source/RenderGraph/RunnablePass.cpp           |  5 ---
 5 files changed, 81 insertions(+), 22 deletions(-)

diff --git a/include/RenderGraph/FrameGraphPrerequisites.hpp b/include/RenderGraph/FrameGraphPrerequisites.hpp
index 318f879..0e82371 100644
--- a/include/RenderGraph/FrameGraphPrerequisites.hpp
+++ b/include/RenderGraph/FrameGraphPrerequisites.hpp
@@ -424,6 +424,8 @@ namespace crg
 	CRG_API VkImageSubresourceRange getVirtualRange( ImageId const & image
 		, VkImageViewType viewType
 		, VkImageSubresourceRange const & range )noexcept;
+	CRG_API std::vector< VkImageSubresourceRange > listSubresources( VkImageViewType viewType
+		, VkImageSubresourceRange const & range );
 	CRG_API bool match( ImageViewData const & lhs, ImageViewData const & rhs )noexcept;
 	CRG_API bool isDepthFormat( VkFormat fmt )noexcept;
 	CRG_API bool isStencilFormat( VkFormat fmt )noexcept;
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index eb696ec..3a6a6f5 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -635,6 +635,28 @@ namespace crg
 		return result;
 	}
 
+	std::vector< VkImageSubresourceRange > listSubresources( VkImageViewType viewType
+		, VkImageSubresourceRange const & range )
+	{
+		// The slices of a 3D image belong to the same subresource.
+		auto layerCount = ( viewType == VK_IMAGE_VIEW_TYPE_3D ? 1u : range.layerCount );
+		std::vector< VkImageSubresourceRange > result;
+
+		for ( uint32_t levelIdx = 0u; levelIdx < range.levelCount; ++levelIdx )
+		{
+			for ( uint32_t layerIdx = 0u; layerIdx < layerCount; ++layerIdx )
+			{
+				result.push_back( { range.aspectMask
+					, range.baseMipLevel + levelIdx
+					, 1u
+					, range.baseArrayLayer + layerIdx
+					, ( viewType == VK_IMAGE_VIEW_TYPE_3D ? range.layerCount : 1u ) } );
+			}
+		}
+
+		return result;
+	}
+
 	bool match( ImageViewData const & lhs, ImageViewData const & rhs )noexcept
 	{
 		return lhs.image.id == rhs.image.id
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..4344ccd 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -42,6 +42,30 @@ namespace crg
 
 			return result;
 		}
+
+		static bool isUniform( LayerLayoutStatesHandler const & states
+			, ImageId const & image
+			, VkImageViewType viewType
+			, VkImageSubresourceRange const & subresourceRange )
+		{
+			auto subresources = listSubresources( viewType, subresourceRange );
+
+			if ( subresources.empty() )
+			{
+				return true;
+			}
+
+			auto state = states.getLayoutState( image, viewType, subresources.front() );
+			return std::all_of( subresources.begin()
+				, subresources.end()
+				, [&states, &image, &viewType, &state]( VkImageSubresourceRange const & lookup )
+				{
+					auto rhs = states.getLayoutState( image, viewType, lookup );
+					return state.layout == rhs.layout
+						&& state.state.access == rhs.state.access
+						&& state.state.pipelineStage == rhs.state.pipelineStage;
+				} );
+		}
 	}
 
 	//************************************************************************************************
@@ -227,6 +251,24 @@ namespace crg
 		auto range = recctx::adaptRange( *m_resources
 				, image.data->info.format
 				, subresourceRange );
+
+		if ( !recctx::isUniform( m_images, image, viewType, range ) )
+		{
+			// A barrier has only one source state, hence one barrier per subresource.
+			for ( auto & subresource : listSubresources( viewType, range ) )
+			{
+				memoryBarrier( commandBuffer
+					, image
+					, viewType
+					, subresource
+					, initialLayout
+					, wantedState
+					, force );
+			}
+
+			return;
+		}
+
 		auto from = getLayoutState( image
 			, viewType
 			, range );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 5353d57..85e483c 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -419,31 +419,29 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange range )const
 	{
-		auto result = context.getLayoutState( image, viewType, range );
-
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+		for ( auto & subresource : listSubresources( viewType, range ) )
 		{
-			// Lookup in graph's external inputs.
-			result = m_graph.getInputLayoutState( image, viewType, range );
+			auto state = context.getLayoutState( image, viewType, subresource );
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+			if ( state.layout == VK_IMAGE_LAYOUT_UNDEFINED )
 			{
-				context.setLayoutState( image, viewType, range, result );
-			}
-		}
+				// Lookup in graph's external inputs.
+				state = m_graph.getInputLayoutState( image, viewType, subresource );
 
-		if ( result.layout == VK_IMAGE_LAYOUT_UNDEFINED )
-		{
-			// Lookup in graph's previous final state.
-			result = m_graph.getFinalLayoutState( image, viewType, range );
+				if ( state.layout == VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					// Lookup in graph's previous final state.
+					state = m_graph.getFinalLayoutState( image, viewType, subresource );
+				}
 
-			if ( result.layout != VK_IMAGE_LAYOUT_UNDEFINED )
-			{
-				context.setLayoutState( image, viewType, range, result );
+				if ( state.layout != VK_IMAGE_LAYOUT_UNDEFINED )
+				{
+					context.setLayoutState( image, viewType, subresource, state );
+				}
 			}
 		}
 
-		return result;
+		return context.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState RunnableGraph::getCurrentLayoutState( RecordContext & context
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..ba6459c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -407,7 +407,6 @@ namespace crg
 					{
 						context.memoryBarrier( commandBuffer
 							, view
-							, currentLayout.layout
 							, LayoutState{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } } );
 
 						if ( isColourFormat( getFormat( view ) ) )
@@ -431,14 +430,10 @@ namespace crg
 								, &view.data->info.subresourceRange );
 						}
 
-						currentLayout.layout = VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
-						currentLayout.state.access = VK_ACCESS_TRANSFER_WRITE_BIT;
-						currentLayout.state.pipelineStage = VK_PIPELINE_STAGE_TRANSFER_BIT;
 					}
 
 					context.memoryBarrier( commandBuffer
 						, view
-						, currentLayout.layout
 						, needed );
 				}
 			}
-- 
2.43.0


From db720b3129fa37d068e0e8f12bbf6f45988fcf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 12/59] fix: the layout of the images which are not used during
 a frame is not forgotten

---
 include/RenderGraph/FrameGraph.hpp              | 1 +
 source/RenderGraph/FrameGraph.cpp               | 7 ++++++-
 source/RenderGraph/LayerLayoutStatesHandler.cpp | 9 +++++++--
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index f41d695..f59f984 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -141,6 +141,7 @@ namespace crg
 		std::set< ImageViewId > m_imageViews;
 		std::map< std::string, ImageViewId, std::less<> > m_attachViews;
 		RecordContext m_finalState;
+		RecordContext m_history;
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 3a6a6f5..d7e4c2c 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -159,6 +159,7 @@ namespace crg
 		, m_name{ std::move( name ) }
 		, m_defaultGroup{ new FramePassGroup{ *this, 0u, m_name } }
 		, m_finalState{ handler }
+		, m_history{ handler }
 	{
 	}
 
@@ -237,7 +238,7 @@ namespace crg
 		, VkImageViewType viewType
 		, VkImageSubresourceRange const & range )const
 	{
-		return m_finalState.getLayoutState( image, viewType, range );
+		return m_history.getLayoutState( image, viewType, range );
 	}
 
 	LayoutState FrameGraph::getFinalLayoutState( ImageViewId view
@@ -339,6 +340,10 @@ namespace crg
 	void FrameGraph::registerFinalState( RecordContext const & context )
 	{
 		m_finalState = context;
+		// The images which were not used this time are still in the state they were left in.
+		auto history = context;
+		history.addStates( m_history );
+		m_history = std::move( history );
 	}
 
 	VkExtent3D getExtent( ImageId const & image )
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 2fe009d..6ccc095 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -17,9 +17,14 @@ namespace crg
 
 	void LayerLayoutStatesHandler::addStates( LayerLayoutStatesHandler const & data )
 	{
-		for ( auto & state : data.images )
+		for ( auto const & [imageId, layers] : data.images )
 		{
-			images.insert( state );
+			auto & image = images[imageId];
+
+			for ( auto const & [layerIdx, levels] : layers )
+			{
+				image[layerIdx].insert( levels.begin(), levels.end() );
+			}
 		}
 	}
 
-- 
2.43.0


From 9cb0778a498685aaa6e3f60f6018233c02171c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 13/59] fix: the transitions of a pass' images wait for, and
 signal, the stages and accesses of this pass

---
 source/RenderGraph/Attachment.cpp   | 16 ++++++++--------
 source/RenderGraph/RunnablePass.cpp |  4 +++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index d41e737..fa58287 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -332,7 +332,9 @@ namespace crg
 		}
 		else if ( isTransitionView() )
 		{
-			result |= crg::getAccessMask( wantedLayout );
+			result |= ( wantedLayout == VK_IMAGE_LAYOUT_GENERAL
+				? VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT
+				: crg::getAccessMask( wantedLayout ) );
 		}
 		else if ( isStorageView() )
 		{
@@ -390,15 +392,13 @@ namespace crg
 	{
 		VkPipelineStageFlags result{ 0u };
 
-		if ( isSampledView() )
-		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
-		}
-		else if ( isTransitionView() )
+		if ( isTransitionView()
+			&& wantedLayout != VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL
+			&& wantedLayout != VK_IMAGE_LAYOUT_GENERAL )
 		{
 			result |= getStageMask( wantedLayout );
 		}
-		else if ( isStorageView() )
+		else if ( isSampledView() || isTransitionView() || isStorageView() )
 		{
 			if ( isCompute )
 			{
@@ -415,7 +415,7 @@ namespace crg
 		}
 		else if ( isDepthAttach() || isStencilAttach() )
 		{
-			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
+			result |= VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 		}
 		else
 		{
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index ba6459c..8a27fc9 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -397,7 +397,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, { attach.getAccessMask()
+							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
-- 
2.43.0


From 82278eb55a7e1bbdeb965402d3e4d9c9e6cf2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 14/59] fix: barriers are not skipped between accesses of a
 same kind when one of them is a write

---
 source/RenderGraph/RecordContext.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4344ccd..8101b3f 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -43,6 +43,26 @@ namespace crg
 			return result;
 		}
 
+		static bool hasWrite( VkAccessFlags access )
+		{
+			constexpr VkAccessFlags writes = VK_ACCESS_SHADER_WRITE_BIT
+				| VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
+				| VK_ACCESS_TRANSFER_WRITE_BIT
+				| VK_ACCESS_HOST_WRITE_BIT
+				| VK_ACCESS_MEMORY_WRITE_BIT;
+			return ( access & writes ) != 0u;
+		}
+
+		static bool needsBarrier( AccessState const & from
+			, AccessState const & wanted )
+		{
+			// Same accesses from same stages only need no barrier when nothing is written.
+			return from.pipelineStage != wanted.pipelineStage
+				|| hasWrite( from.access )
+				|| hasWrite( wanted.access );
+		}
+
 		static bool isUniform( LayerLayoutStatesHandler const & states
 			, ImageId const & image
 			, VkImageViewType viewType
@@ -282,7 +302,7 @@ namespace crg
 
 		if ( force
 			|| ( ( from.layout != wantedState.layout
-				|| from.state.pipelineStage != wantedState.state.pipelineStage )
+				|| recctx::needsBarrier( from.state, wantedState.state ) )
 				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
 		{
 			auto & resources = getResources();
@@ -375,8 +395,8 @@ namespace crg
 		}
 
 		if ( force
-			|| ( from.access != wantedState.access
-				|| from.pipelineStage != wantedState.pipelineStage ) )
+			|| from.access != wantedState.access
+			|| recctx::needsBarrier( from, wantedState ) )
 		{
 			auto const & resources = getResources();
 			VkBufferMemoryBarrier barrier{ VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER
-- 
2.43.0


From f2d1f038619b2e32492abcd597172f2d6fa2915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 15/59] fix: buffer barriers cover the whole buffer, as the
 tracked access states do

---
 source/RenderGraph/RecordContext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 8101b3f..6b7178d 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -406,8 +406,8 @@ namespace crg
 				, VK_QUEUE_FAMILY_IGNORED
 				, VK_QUEUE_FAMILY_IGNORED
 				, buffer
-				, subresourceRange.offset
-				, subresourceRange.size };
+				, 0u // The access state is the one of the whole buffer.
+				, VK_WHOLE_SIZE };
 			resources->vkCmdPipelineBarrier( commandBuffer
 				, from.pipelineStage
 				, wantedState.pipelineStage
-- 
2.43.0


From 1a30939909fbcccf3ea46267aa2f4653e3d31b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 16/59] fix: reads of uniform buffers wait for the writes of
 previous passes

---
 source/RenderGraph/RunnablePass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 8a27fc9..c8d7bc6 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -443,7 +443,7 @@ namespace crg
 			for ( auto & attach : m_pass.buffers )
 			{
 				if ( !attach.isNoTransition()
-					&& ( attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
+					&& ( attach.isUniformBuffer() || attach.isStorageBuffer() || attach.isTransferBuffer() || attach.isTransitionBuffer() ) )
 				{
 					auto & range = attach.getBufferRange();
 					auto buffer = attach.buffer( index );
-- 
2.43.0


From ebbca9526ed6f704de2f97656a9e195008ea47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 17/59] fix: the render passes account for the layouts left by
 the previous frames, and for every source of merged views

---
 .../RunnablePasses/RenderPassHolder.hpp       |  1 +
 .../RunnablePasses/RenderPassHolder.cpp       | 72 ++++++++++++-------
 2 files changed, 47 insertions(+), 26 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
index 93f4493..f0be4aa 100644
--- a/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderPassHolder.hpp
@@ -15,6 +15,7 @@ namespace crg
 			crg::ImageViewId view;
 			LayoutState input;
 			LayoutState output;
+			LayoutState current;
 		};
 
 	public:
diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 6c026db..5f26b23 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -17,6 +17,33 @@ namespace crg
 
 	namespace rpHolder
 	{
+		static ImageViewIdArray listViews( ImageViewId const & view )
+		{
+			return view.data->source.empty()
+				? ImageViewIdArray{ view }
+				: view.data->source;
+		}
+
+		static void setLayoutState( RecordContext & context
+			, ImageViewId const & view
+			, LayoutState const & layoutState )
+		{
+			for ( auto & source : listViews( view ) )
+			{
+				context.setLayoutState( source, layoutState );
+			}
+		}
+
+		static LayoutState getCurrentLayoutState( RunnableGraph const & graph
+			, RecordContext & context
+			, ImageViewId const & view )
+		{
+			return graph.getCurrentLayoutState( context
+				, view.data->image
+				, view.data->info.viewType
+				, view.data->info.subresourceRange );
+		}
+
 		static VkAttachmentReference addAttach( RecordContext & context
 			, Attachment const & attach
 			, ImageViewId view
@@ -25,6 +52,7 @@ namespace crg
 			, std::vector< VkClearValue > & clearValues
 			, LayoutState initialLayout
 			, LayoutState finalLayout
+			, LayoutState currentLayout
 			, bool separateDepthStencilLayouts )
 		{
 			VkAttachmentReference result{ uint32_t( attaches.size() )
@@ -40,21 +68,9 @@ namespace crg
 				, attach.getStencilStoreOp()
 				, initialLayout.layout
 				, finalLayout.layout } );
-			viewAttaches.push_back( { view, initialLayout, finalLayout } );
+			viewAttaches.push_back( { view, initialLayout, finalLayout, currentLayout } );
 			clearValues.push_back( attach.getClearValue() );
-
-			if ( view.data->source.empty() )
-			{
-				context.setLayoutState( view, finalLayout );
-			}
-			else
-			{
-				for ( auto & source : view.data->source )
-				{
-					context.setLayoutState( source, finalLayout );
-				}
-			}
-
+			setLayoutState( context, view, finalLayout );
 			return result;
 		}
 
@@ -67,6 +83,7 @@ namespace crg
 			, VkPipelineColorBlendAttachmentStateArray & blendAttachs
 			, LayoutState initialLayout
 			, LayoutState finalLayout
+			, LayoutState currentLayout
 			, bool separateDepthStencilLayouts )
 		{
 			blendAttachs.push_back( attach.getBlendState() );
@@ -78,6 +95,7 @@ namespace crg
 				, clearValues
 				, initialLayout
 				, finalLayout
+				, currentLayout
 				, separateDepthStencilLayouts );
 		}
 
@@ -94,17 +112,15 @@ namespace crg
 				|| ( lhs.state.access != 0 && lhs.state.pipelineStage != rhs.state.pipelineStage );
 		}
 
-		static bool checkAttaches( RecordContext const & context
-			, std::vector< RenderPassHolder::Entry > const & attaches
-			, uint32_t passIndex )
+		static bool checkAttaches( RunnableGraph const & graph
+			, RecordContext & context
+			, std::vector< RenderPassHolder::Entry > const & attaches )
 		{
 			auto it = std::find_if( attaches.begin()
 				, attaches.end()
-				, [&context, passIndex]( RenderPassHolder::Entry const & lookup )
+				, [&graph, &context]( RenderPassHolder::Entry const & lookup )
 				{
-					auto layout = context.getLayoutState( resolveView( lookup.view, passIndex ) );
-					return layout != lookup.input
-						&& layout.layout != VK_IMAGE_LAYOUT_UNDEFINED;
+					return getCurrentLayoutState( graph, context, lookup.view ) != lookup.current;
 				} );
 			return it == attaches.end();
 		}
@@ -170,7 +186,7 @@ namespace crg
 		auto nextState = context.getNextPipelineState();
 
 		if ( data.renderPass
-			&& rpHolder::checkAttaches( context, data.attaches, passIndex )
+			&& rpHolder::checkAttaches( m_graph, context, data.attaches )
 			&& data.previousState == previousState
 			&& data.nextState == nextState )
 		{
@@ -209,7 +225,8 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
+			rpHolder::setLayoutState( context
+				, attach.view
 				, attach.input );
 		}
 
@@ -226,7 +243,8 @@ namespace crg
 
 		for ( auto & attach : m_currentPass->attaches )
 		{
-			context.setLayoutState( resolveView( attach.view, m_index )
+			rpHolder::setLayoutState( context
+				, attach.view
 				, attach.output );
 		}
 
@@ -252,8 +270,8 @@ namespace crg
 				|| attach.isColourAttach() )
 			{
 				auto view = attach.view( passIndex );
-				auto resolved = resolveView( view, passIndex );
-				auto currentLayout = m_graph.getCurrentLayoutState( context, resolved );
+				auto resolved = rpHolder::listViews( view ).front();
+				auto currentLayout = rpHolder::getCurrentLayoutState( m_graph, context, view );
 				auto nextLayout = m_graph.getNextLayoutState( context, runnable, resolved );
 				auto from = ( !attach.isInput()
 					? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
@@ -270,6 +288,7 @@ namespace crg
 						, data.clearValues
 						, from
 						, nextLayout
+						, currentLayout
 						, m_context.separateDepthStencilLayouts );
 				}
 				else if ( attach.isColourAttach() )
@@ -283,6 +302,7 @@ namespace crg
 						, m_blendAttachs
 						, from
 						, nextLayout
+						, currentLayout
 						, m_context.separateDepthStencilLayouts ) );
 				}
 			}
-- 
2.43.0


From 11f25f583d2557d0b997529fcb20d6670cab5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 18/59] fix: a render pass does not discard the content of the
 attachments it only reads

---
 .../RenderGraph/RunnablePasses/RenderPassHolder.cpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 5f26b23..59c7c04 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -57,15 +57,22 @@ namespace crg
 		{
 			VkAttachmentReference result{ uint32_t( attaches.size() )
 				, attach.getImageLayout( separateDepthStencilLayouts ) };
+			// The attachments which are only read keep their content.
+			auto storeOp = ( attach.isOutput()
+				? attach.getStoreOp()
+				: VK_ATTACHMENT_STORE_OP_STORE );
+			auto stencilStoreOp = ( attach.isOutput()
+				? attach.getStencilStoreOp()
+				: VK_ATTACHMENT_STORE_OP_STORE );
 			attaches.push_back( { 0u
 				, view.data->info.format
 				, view.data->image.data->info.samples
 				, ( initialLayout.layout == VK_IMAGE_LAYOUT_UNDEFINED
 					? VK_ATTACHMENT_LOAD_OP_CLEAR
 					: attach.getLoadOp() )
-				, attach.getStoreOp()
+				, storeOp
 				, attach.getStencilLoadOp()
-				, attach.getStencilStoreOp()
+				, stencilStoreOp
 				, initialLayout.layout
 				, finalLayout.layout } );
 			viewAttaches.push_back( { view, initialLayout, finalLayout, currentLayout } );
-- 
2.43.0


From 81f50090749c29fc4a2dd79972aab485446ba338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 19/59] fix: the external dependencies of a render pass cover
 the previous and next uses of its attachments

---
 .../RunnablePasses/RenderPassHolder.cpp       | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 59c7c04..192ee63 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -327,20 +327,40 @@ namespace crg
 			, nullptr };
 		data.previousState = previousState;
 		data.nextState = nextState;
+		// The previous and next users of the attachments are not necessarily the previous and next passes.
+		PipelineState srcState = previousState;
+		PipelineState dstState = nextState;
+		PipelineState attachState{ VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+			, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };
+
+		for ( auto & attach : data.attaches )
+		{
+			srcState.access |= attach.current.state.access;
+			srcState.pipelineStage |= attach.current.state.pipelineStage;
+			dstState.access |= attach.output.state.access;
+			dstState.pipelineStage |= attach.output.state.pipelineStage;
+
+			if ( !isColourFormat( getFormat( attach.view ) ) )
+			{
+				attachState.access |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
+				attachState.pipelineStage |= VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
+			}
+		}
+
 		VkSubpassDependencyArray dependencies{
 			{ VK_SUBPASS_EXTERNAL
 				, 0u
-				, previousState.pipelineStage
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
-				, previousState.access
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
+				, srcState.pipelineStage
+				, attachState.pipelineStage
+				, srcState.access
+				, attachState.access
 				, VK_DEPENDENCY_BY_REGION_BIT }
 			, { 0u
 				, VK_SUBPASS_EXTERNAL
-				, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
-				, nextState.pipelineStage
-				, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT
-				, nextState.access
+				, attachState.pipelineStage
+				, dstState.pipelineStage
+				, attachState.access
+				, dstState.access
 				, VK_DEPENDENCY_BY_REGION_BIT } };
 		VkRenderPassCreateInfo createInfo{ VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO
 			, nullptr
-- 
2.43.0


From e70ac422004eb9d4848e146fcb663c7ba3fe83d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 20/59] fix: the layout of the mip levels of a 3D image is
 tracked consistently through views with different base levels

---
 source/RenderGraph/LayerLayoutStatesHandler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 6ccc095..562e22c 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -6,6 +6,7 @@ See LICENSE file in root folder.
 #include "RenderGraph/ImageData.hpp"
 #include "RenderGraph/ImageViewData.hpp"
 
+#include <algorithm>
 #include <cassert>
 
 namespace crg
@@ -36,6 +37,13 @@ namespace crg
 		auto range = getVirtualRange( image
 			, viewType
 			, subresourceRange );
+
+		if ( viewType == VK_IMAGE_VIEW_TYPE_3D )
+		{
+			// All the slices of a mip level, whatever the level the range starts from.
+			range.layerCount = std::max( 1u, getExtent( image ).depth );
+		}
+
 		auto [it, _] = images.try_emplace( image.id );
 		addSubresourceRangeLayout( it->second
 			, range
-- 
2.43.0


From 13cc47f177fbf4cb7025c8759139dfeba23c101a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 21/59] fix: copies between buffers and images start at the
 offset of the buffer attachment

---
 source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp | 2 +-
 source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
index db2c985..1601b7d 100644
--- a/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		// Copy source to target.
 		auto range = bufToImg::convert( dstAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
diff --git a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
index b2e167e..064c43e 100644
--- a/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp
@@ -54,7 +54,7 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		// Copy source to target.
 		auto range = imToBuf::convert( srcAttach.data->info.subresourceRange );
-		VkBufferImageCopy copyRegion{ 0ULL
+		VkBufferImageCopy copyRegion{ m_pass.buffers.front().getBufferRange().offset
 			, 0u
 			, 0u
 			, range
-- 
2.43.0


From 076aa0ef1dc1087e2b6adf6c1e2539878acd7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 22/59] fix: the end of a blitted region takes its offset into
 account

---
 source/RenderGraph/RecordContext.cpp            |  4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 6b7178d..e28ccf7 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -514,10 +514,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..067be4a 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,13 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +68,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From cacf6da4436ffbf09c2e2949a50708e84ef5fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 23/59] fix: every dimension of a dispatch uses its own group
 count callback

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From 0ad26ae31644d66b1cfcd45ceacbf1ae212148ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 24/59] fix: the pipeline of a compute pass is created once
 when its pass indices share it

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..d36dc31 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -105,6 +105,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From d89cf2a103fecddff172b186dc82466c958d1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 25/59] fix: the outputs of a graph are left in their output
 layout, whatever the kind of pass which used them last

---
 include/RenderGraph/FrameGraph.hpp    |  8 ++++++++
 include/RenderGraph/RunnableGraph.hpp |  3 +++
 source/RenderGraph/FrameGraph.cpp     |  1 +
 source/RenderGraph/RunnableGraph.cpp  | 23 +++++++++++++++++++++++
 4 files changed, 35 insertions(+)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index f59f984..fed3611 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -129,6 +129,13 @@ namespace crg
 		/**@}*/
 
 	private:
+		struct OutputRange
+		{
+			ImageId image;
+			VkImageViewType viewType;
+			VkImageSubresourceRange range;
+		};
+
 		void registerFinalState( RecordContext const & context );
 
 	private:
@@ -145,5 +152,6 @@ namespace crg
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
 		LayerLayoutStatesHandler m_outputs;
+		std::vector< OutputRange > m_outputRanges;
 	};
 }
diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 21383da..77090d0 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -137,6 +137,9 @@ namespace crg
 			return m_timer;
 		}
 
+	private:
+		void doRecordOutputs( RecordContext & context );
+
 	private:
 		FrameGraph & m_graph;
 		GraphContext & m_context;
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index d7e4c2c..2327c2e 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -305,6 +305,7 @@ namespace crg
 			, viewType
 			, range
 			, outputLayout );
+		m_outputRanges.push_back( { image, viewType, range } );
 	}
 
 	void FrameGraph::addOutput( ImageViewId view
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 85e483c..6df10a2 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -337,6 +337,7 @@ namespace crg
 				++it;
 			}
 
+			doRecordOutputs( recordContext );
 			m_timer.endPass( m_commandBuffer );
 			m_context.vkEndCommandBuffer( m_commandBuffer );
 		}
@@ -478,4 +479,26 @@ namespace crg
 	{
 		return m_graph.getOutputLayoutState( view );
 	}
+
+	void RunnableGraph::doRecordOutputs( RecordContext & context )
+	{
+		for ( auto const & [image, viewType, range] : m_graph.m_outputRanges )
+		{
+			for ( auto & subresource : listSubresources( viewType, range ) )
+			{
+				auto current = getCurrentLayoutState( context, image, viewType, subresource );
+
+				if ( auto output = m_graph.getOutputLayoutState( image, viewType, subresource );
+					current.layout != VK_IMAGE_LAYOUT_UNDEFINED
+					&& current.layout != output.layout )
+				{
+					context.memoryBarrier( m_commandBuffer
+						, image
+						, viewType
+						, subresource
+						, output );
+				}
+			}
+		}
+	}
 }
-- 
2.43.0


From dc52d364090d3d53e90751243eda2707ca1959aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 26/59] fix: the states of a graph dependency win over the ones
 of the graphs it depends on itself

---
 source/RenderGraph/RunnableGraph.cpp | 38 +++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 6df10a2..4bfc29c 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -6,8 +6,10 @@ See LICENSE file in root folder.
 #include "RenderGraph/Log.hpp"
 #include "RenderGraph/ResourceHandler.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cassert>
+#include <set>
 #include <string>
 #include <type_traits>
 #include <unordered_set>
@@ -116,6 +118,40 @@ namespace crg
 			return result;
 		}
 
+		static bool dependsOn( FrameGraph const & graph
+			, FrameGraph const & dependency
+			, std::set< FrameGraph const * > & visited )
+		{
+			return visited.insert( &graph ).second
+				&& std::any_of( graph.getDependencies().begin()
+					, graph.getDependencies().end()
+					, [&dependency, &visited]( FrameGraph const * lookup )
+					{
+						return lookup == &dependency
+							|| dependsOn( *lookup, dependency, visited );
+					} );
+		}
+
+		static FrameGraphArray sortDependencies( FrameGraphArray const & dependencies )
+		{
+			// The states of a graph are more recent than the ones of the graphs it depends on.
+			FrameGraphArray result;
+
+			for ( auto const & dependency : dependencies )
+			{
+				result.insert( std::find_if( result.begin()
+						, result.end()
+						, [&dependency]( FrameGraph const * lookup )
+						{
+							std::set< FrameGraph const * > visited;
+							return dependsOn( *dependency, *lookup, visited );
+						} )
+					, dependency );
+			}
+
+			return result;
+		}
+
 		static PipelineState getNextState( PipelineState currentState
 			, std::vector< RunnablePassPtr >::iterator nextPassIt
 			, std::vector< RunnablePassPtr >::iterator endIt )
@@ -290,7 +326,7 @@ namespace crg
 		m_states.clear();
 		RecordContext recordContext{ m_resources };
 
-		for ( auto & dependency : m_graph.getDependencies() )
+		for ( auto & dependency : rungrf::sortDependencies( m_graph.getDependencies() ) )
 		{
 			recordContext.addStates( dependency->getFinalStates() );
 			m_states.try_emplace( dependency
-- 
2.43.0


From 7d52aface8c0d0648241a0e1172970fb935b1bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 27/59] fix: the state of an image range gathers the stages of
 all its subresources

---
 source/RenderGraph/FrameGraph.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 2327c2e..52831d8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -609,6 +609,7 @@ namespace crg
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wnull-dereference"
 							rit->second.state.access |= state.state.access;
+							rit->second.state.pipelineStage |= state.state.pipelineStage;
 #pragma GCC diagnostic pop
 						}
 					}
-- 
2.43.0


From 8ab8f709e103f0a9d64636ba2c94be9f6b0ab149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 28/59] fix: the external dependencies of a render pass cover
 all the subresources of its attachments

---
 .../RunnablePasses/RenderPassHolder.cpp       | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 192ee63..101929c 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -38,10 +38,22 @@ namespace crg
 			, RecordContext & context
 			, ImageViewId const & view )
 		{
-			return graph.getCurrentLayoutState( context
-				, view.data->image
-				, view.data->info.viewType
-				, view.data->info.subresourceRange );
+			auto const & image = view.data->image;
+			auto const & info = view.data->info;
+			auto result = graph.getCurrentLayoutState( context
+				, image
+				, info.viewType
+				, info.subresourceRange );
+
+			// The accesses to all the subresources count, even the ones in another layout.
+			for ( auto & subresource : listSubresources( info.viewType, info.subresourceRange ) )
+			{
+				auto state = context.getLayoutState( image, info.viewType, subresource );
+				result.state.access |= state.state.access;
+				result.state.pipelineStage |= state.state.pipelineStage;
+			}
+
+			return result;
 		}
 
 		static VkAttachmentReference addAttach( RecordContext & context
-- 
2.43.0


From c46a8a8de9448d789bd9ff1afe1ca605a10d6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 29/59] fix: every implicit action of the disabled passes is
 run before the next use of its view

---
 source/RenderGraph/RecordContext.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index e28ccf7..e8c2deb 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -190,14 +190,16 @@ namespace crg
 		, uint32_t index
 		, crg::ImageViewId view )
 	{
-		auto it = std::find_if( m_implicitTransitions.begin()
-			, m_implicitTransitions.end()
-			, [&view]( ImplicitTransition const & lookup )
+		auto lookupView = [&view]( ImplicitTransition const & lookup )
 			{
 				return lookup.view == view;
-			} );
+			};
+		auto it = std::find_if( m_implicitTransitions.begin()
+			, m_implicitTransitions.end()
+			, lookupView );
 
-		if ( it != m_implicitTransitions.end() )
+		// More than one pass can have an implicit action on this view.
+		while ( it != m_implicitTransitions.end() )
 		{
 			auto pass = it->pass;
 			auto action = it->action;
@@ -207,6 +209,10 @@ namespace crg
 			{
 				action( *this, commandBuffer, index );
 			}
+
+			it = std::find_if( m_implicitTransitions.begin()
+				, m_implicitTransitions.end()
+				, lookupView );
 		}
 	}
 
-- 
2.43.0


From 93257003e2f7e31477d55ea4358b6971e31d8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 30/59] fix: resetting a pipeline waits for the runs of its
 graph which use it

---
 source/RenderGraph/RunnablePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index c8d7bc6..fdc8226 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -503,6 +503,8 @@ namespace crg
 		{
 			assert( m_passes.size() > passIndex );
 			auto & pass = m_passes[passIndex];
+			// The pass' commands are executed from its graph's command buffer.
+			m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL );
 
 			if ( pass.commandBuffer.commandBuffer )
 			{
-- 
2.43.0


From bc0fa326d2fe0200fc5786054c36aa88a632e773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:38 +0000
Subject: [PATCH 31/59] fix: resetting a compute pass which was never
 initialised does not create its pipeline without a layout

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index d36dc31..dd73e57 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -53,7 +53,12 @@ namespace crg
 	{
 		resetCommandBuffer( index );
 		m_pipeline.resetPipeline( std::move( config ), index );
-		doCreatePipeline( index );
+
+		if ( getPipelineLayout() )
+		{
+			doCreatePipeline( index );
+		}
+
 		reRecordCurrent();
 	}
 
-- 
2.43.0


From 1761282b181c8e44a7f8125d74c7df05e18db1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 32/59] fix: a graph gets the newest states from dependencies
 which share a dependency

---
 include/RenderGraph/FrameGraph.hpp            | 12 ++++++++-
 .../RenderGraph/LayerLayoutStatesHandler.hpp  |  1 +
 include/RenderGraph/RecordContext.hpp         |  1 +
 source/RenderGraph/FrameGraph.cpp             |  5 +++-
 .../RenderGraph/LayerLayoutStatesHandler.cpp  | 27 +++++++++++++++++++
 source/RenderGraph/RecordContext.cpp          | 19 +++++++++++++
 source/RenderGraph/RunnableGraph.cpp          | 24 ++++++++++++++---
 7 files changed, 84 insertions(+), 5 deletions(-)

diff --git a/include/RenderGraph/FrameGraph.hpp b/include/RenderGraph/FrameGraph.hpp
index fed3611..2e54232 100644
--- a/include/RenderGraph/FrameGraph.hpp
+++ b/include/RenderGraph/FrameGraph.hpp
@@ -121,6 +121,14 @@ namespace crg
 		{
 			return m_finalState;
 		}
+		/**
+		*\brief
+		*	The states changed by this graph, without the ones it only got from its dependencies.
+		*/
+		RecordContext const & getChangedStates()const noexcept
+		{
+			return m_changedState;
+		}
 
 		FramePassGroup & getDefaultGroup()const noexcept
 		{
@@ -136,7 +144,8 @@ namespace crg
 			VkImageSubresourceRange range;
 		};
 
-		void registerFinalState( RecordContext const & context );
+		void registerFinalState( RecordContext const & context
+			, RecordContext const & inherited );
 
 	private:
 		ResourceHandler & m_handler;
@@ -148,6 +157,7 @@ namespace crg
 		std::set< ImageViewId > m_imageViews;
 		std::map< std::string, ImageViewId, std::less<> > m_attachViews;
 		RecordContext m_finalState;
+		RecordContext m_changedState;
 		RecordContext m_history;
 		FrameGraphArray m_depends;
 		LayerLayoutStatesHandler m_inputs;
diff --git a/include/RenderGraph/LayerLayoutStatesHandler.hpp b/include/RenderGraph/LayerLayoutStatesHandler.hpp
index 1d363aa..5a396b9 100644
--- a/include/RenderGraph/LayerLayoutStatesHandler.hpp
+++ b/include/RenderGraph/LayerLayoutStatesHandler.hpp
@@ -13,6 +13,7 @@ namespace crg
 		CRG_API LayerLayoutStatesHandler() = default;
 		CRG_API explicit LayerLayoutStatesHandler( LayerLayoutStatesMap const & rhs );
 		CRG_API void addStates( LayerLayoutStatesHandler const & data );
+		CRG_API LayerLayoutStatesHandler getChanges( LayerLayoutStatesHandler const & previous )const;
 
 		CRG_API void setLayoutState( ImageId image
 			, VkImageViewType viewType
diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 3d6528d..0040199 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -35,6 +35,7 @@ namespace crg
 		*/
 		//@{
 		CRG_API void addStates( RecordContext const & data );
+		CRG_API RecordContext getChanges( RecordContext const & previous )const;
 		/**
 		*\name	Pipeline
 		*/
diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 52831d8..37d527e 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -159,6 +159,7 @@ namespace crg
 		, m_name{ std::move( name ) }
 		, m_defaultGroup{ new FramePassGroup{ *this, 0u, m_name } }
 		, m_finalState{ handler }
+		, m_changedState{ handler }
 		, m_history{ handler }
 	{
 	}
@@ -338,9 +339,11 @@ namespace crg
 		return m_outputs.images;
 	}
 
-	void FrameGraph::registerFinalState( RecordContext const & context )
+	void FrameGraph::registerFinalState( RecordContext const & context
+		, RecordContext const & inherited )
 	{
 		m_finalState = context;
+		m_changedState = context.getChanges( inherited );
 		// The images which were not used this time are still in the state they were left in.
 		auto history = context;
 		history.addStates( m_history );
diff --git a/source/RenderGraph/LayerLayoutStatesHandler.cpp b/source/RenderGraph/LayerLayoutStatesHandler.cpp
index 562e22c..b571b60 100644
--- a/source/RenderGraph/LayerLayoutStatesHandler.cpp
+++ b/source/RenderGraph/LayerLayoutStatesHandler.cpp
@@ -29,6 +29,33 @@ namespace crg
 		}
 	}
 
+	LayerLayoutStatesHandler LayerLayoutStatesHandler::getChanges( LayerLayoutStatesHandler const & previous )const
+	{
+		auto result = *this;
+
+		for ( auto const & [imageId, layers] : previous.images )
+		{
+			for ( auto const & [layerIdx, levels] : layers )
+			{
+				auto & resLevels = result.images[imageId][layerIdx];
+
+				for ( auto const & [level, state] : levels )
+				{
+					if ( auto it = resLevels.find( level );
+						it != resLevels.end()
+						&& it->second.layout == state.layout
+						&& it->second.state.access == state.state.access
+						&& it->second.state.pipelineStage == state.state.pipelineStage )
+					{
+						resLevels.erase( it );
+					}
+				}
+			}
+		}
+
+		return result;
+	}
+
 	void LayerLayoutStatesHandler::setLayoutState( ImageId image
 		, VkImageViewType viewType
 		, VkImageSubresourceRange const & subresourceRange
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index e8c2deb..41a917b 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -120,6 +120,25 @@ namespace crg
 		}
 	}
 
+	RecordContext RecordContext::getChanges( RecordContext const & previous )const
+	{
+		auto result = *this;
+		result.m_images = m_images.getChanges( previous.m_images );
+
+		for ( auto & [buffer, state] : previous.m_buffers )
+		{
+			if ( auto it = result.m_buffers.find( buffer );
+				it != result.m_buffers.end()
+				&& it->second.access == state.access
+				&& it->second.pipelineStage == state.pipelineStage )
+			{
+				result.m_buffers.erase( it );
+			}
+		}
+
+		return result;
+	}
+
 	void RecordContext::setNextPipelineState( PipelineState const & state
 		, LayerLayoutStatesMap const & imageLayouts )
 	{
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 4bfc29c..c33e40d 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -132,6 +132,19 @@ namespace crg
 					} );
 		}
 
+		static void gatherDependencies( FrameGraph const & graph
+			, FrameGraphArray & result )
+		{
+			for ( auto const & dependency : graph.getDependencies() )
+			{
+				if ( std::find( result.begin(), result.end(), dependency ) == result.end() )
+				{
+					result.push_back( dependency );
+					gatherDependencies( *dependency, result );
+				}
+			}
+		}
+
 		static FrameGraphArray sortDependencies( FrameGraphArray const & dependencies )
 		{
 			// The states of a graph are more recent than the ones of the graphs it depends on.
@@ -326,13 +339,18 @@ namespace crg
 		m_states.clear();
 		RecordContext recordContext{ m_resources };
 
-		for ( auto & dependency : rungrf::sortDependencies( m_graph.getDependencies() ) )
+		FrameGraphArray dependencies;
+		rungrf::gatherDependencies( m_graph, dependencies );
+
+		for ( auto & dependency : rungrf::sortDependencies( dependencies ) )
 		{
-			recordContext.addStates( dependency->getFinalStates() );
+			// What a dependency got from another one can be older than what a third one left.
+			recordContext.addStates( dependency->getChangedStates() );
 			m_states.try_emplace( dependency
 				, dependency->getFinalStates().getIndexState() );
 		}
 
+		RecordContext const inherited{ recordContext };
 		auto itGraph = m_states.try_emplace( &m_graph ).first;
 		itGraph->second.resize( m_passes.size() );
 
@@ -378,7 +396,7 @@ namespace crg
 			m_context.vkEndCommandBuffer( m_commandBuffer );
 		}
 
-		m_graph.registerFinalState( recordContext );
+		m_graph.registerFinalState( recordContext, inherited );
 	}
 
 	SemaphoreWaitArray RunnableGraph::run( VkQueue queue )
-- 
2.43.0


From 3e6c7ae01d899e1e7f302fc59e80ad4c7c58b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 33/59] fix: a resource whose creation fails is neither leaked
 nor remembered as created

---
 include/RenderGraph/ResourceHandler.hpp |   6 ++
 source/RenderGraph/ResourceHandler.cpp  | 122 ++++++++++++++++++------
 2 files changed, 100 insertions(+), 28 deletions(-)

diff --git a/include/RenderGraph/ResourceHandler.hpp b/include/RenderGraph/ResourceHandler.hpp
index f09a3e3..a220b10 100644
--- a/include/RenderGraph/ResourceHandler.hpp
+++ b/include/RenderGraph/ResourceHandler.hpp
@@ -57,6 +57,12 @@ namespace crg
 		CRG_API void destroyVertexBuffer( GraphContext & context
 			, VertexBuffer const * buffer );
 
+	private:
+		void doDestroyImage( GraphContext & context
+			, ImageMemoryMap::iterator it );
+		static void doDestroyVertexBuffer( GraphContext & context
+			, VertexBuffer & vertexBuffer );
+
 	private:
 		mutable std::mutex m_imagesMutex;
 		ImageIdDataOwnerCont m_imageIds;
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..bc197cc 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -48,6 +48,37 @@ namespace crg
 			return result;
 		}
 
+		// Undoes a creation which fails halfway.
+		template< typename UndoT >
+		class CreationGuard
+		{
+		public:
+			explicit CreationGuard( UndoT undo )
+				: m_undo{ std::move( undo ) }
+			{
+			}
+
+			CreationGuard( CreationGuard const & ) = delete;
+			CreationGuard & operator=( CreationGuard const & ) = delete;
+
+			~CreationGuard()noexcept
+			{
+				if ( m_armed )
+				{
+					m_undo();
+				}
+			}
+
+			void release()noexcept
+			{
+				m_armed = false;
+			}
+
+		private:
+			UndoT m_undo;
+			bool m_armed{ true };
+		};
+
 		template< typename T >
 		static size_t hashCombine( size_t hash
 			, T const & rhs )
@@ -186,6 +217,10 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::CreationGuard guard{ [this, &context, it = it]()
+					{
+						doDestroyImage( context, it );
+					} };
 				// Create image
 				auto createInfo = reshdl::convert( *imageId.data );
 				auto res = context.vkCreateImage( context.device
@@ -225,6 +260,8 @@ namespace crg
 					checkVkResult( res, "Image memory binding" );
 					created = true;
 				}
+
+				guard.release();
 			}
 
 			result = { it->second.first, created };
@@ -246,6 +283,10 @@ namespace crg
 
 			if ( ins )
 			{
+				reshdl::CreationGuard guard{ [this, it = it]()
+					{
+						m_imageViews.erase( it );
+					} };
 				auto image = createImage( context, view.data->image ).first;
 				auto createInfo = reshdl::convert( *view.data, image );
 				auto res = context.vkCreateImageView( context.device
@@ -255,6 +296,7 @@ namespace crg
 				checkVkResult( res, "ImageView creation" );
 				crgRegisterObjectName( context, view.data->name, it->second );
 				created = true;
+				guard.release();
 			}
 
 			result = { it->second, created };
@@ -294,8 +336,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -315,6 +357,10 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
+			reshdl::CreationGuard guard{ [&context, vertexBuffer]()
+				{
+					doDestroyVertexBuffer( context, *vertexBuffer );
+				} };
 			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 				, nullptr
 				, 0u
@@ -409,6 +455,7 @@ namespace crg
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
+			guard.release();
 		}
 
 		return vertexBuffer;
@@ -422,17 +469,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
-			m_images.erase( it );
+			doDestroyImage( context, it );
 		}
 	}
 
@@ -486,25 +523,44 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
+			doDestroyVertexBuffer( context, **it );
+			m_vertexBuffers.erase( it );
+		}
+	}
 
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
+	void ResourceHandler::doDestroyImage( GraphContext & context
+		, ImageMemoryMap::iterator it )
+	{
+		if ( context.vkFreeMemory && it->second.second )
+		{
+			context.vkFreeMemory( context.device, it->second.second, context.allocator );
+		}
 
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
+		if ( context.vkDestroyImage && it->second.first )
+		{
+			context.vkDestroyImage( context.device, it->second.first, context.allocator );
+		}
 
-			m_vertexBuffers.erase( it );
+		m_images.erase( it );
+	}
+
+	void ResourceHandler::doDestroyVertexBuffer( GraphContext & context
+		, VertexBuffer & vertexBuffer )
+	{
+		if ( context.vkFreeMemory && vertexBuffer.memory )
+		{
+			crgUnregisterObject( context, vertexBuffer.memory );
+			context.vkFreeMemory( context.device
+				, vertexBuffer.memory
+				, context.allocator );
+		}
+
+		if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+		{
+			crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+			context.vkDestroyBuffer( context.device
+				, vertexBuffer.buffer.buffer()
+				, context.allocator );
 		}
 	}
 
@@ -597,9 +653,14 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::CreationGuard guard{ [this, it = it]()
+				{
+					m_samplers.erase( it );
+				} };
 			it->second = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			guard.release();
 		}
 
 		return it->second;
@@ -613,10 +674,15 @@ namespace crg
 
 		if ( res )
 		{
+			reshdl::CreationGuard guard{ [this, it = it]()
+				{
+					m_vertexBuffers.erase( it );
+				} };
 			it->second = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			guard.release();
 		}
 
 		return *it->second;
-- 
2.43.0


From 4ce78fbc3dabf0224d8a04d1fce92e03cd99ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 34/59] fix: the semaphore of a graph which cannot be compiled
 is destroyed

---
 include/RenderGraph/RunnableGraph.hpp |  2 +-
 source/RenderGraph/RunnableGraph.cpp  | 24 ++++++++++++------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 77090d0..003f2cb 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -153,7 +153,7 @@ namespace crg
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
 		VkCommandBuffer m_commandBuffer{};
-		VkSemaphore m_semaphore{};
+		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
 		FramePassTimer m_timer;
 	};
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index c33e40d..e74bbb6 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -237,6 +237,14 @@ namespace crg
 				ctx.vkDestroyCommandPool( ctx.device, object, ctx.allocator );
 				object = {};
 			} }
+		, m_semaphore{ m_context
+			, {}
+			, []( GraphContext & ctx, VkSemaphore & object )noexcept
+			{
+				crgUnregisterObject( ctx, object );
+				ctx.vkDestroySemaphore( ctx.device, object, ctx.allocator );
+				object = {};
+			} }
 		, m_fence{ m_context
 			, graph.getName() + "/Graph"
 			, { VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, nullptr, VK_FENCE_CREATE_SIGNALED_BIT } }
@@ -252,9 +260,9 @@ namespace crg
 			auto res = context.vkCreateSemaphore( m_context.device
 				, &createInfo
 				, m_context.allocator
-				, &m_semaphore );
+				, &m_semaphore.object );
 			checkVkResult( res, name + " - Semaphore creation" );
-			crgRegisterObject( m_context, name, m_semaphore );
+			crgRegisterObject( m_context, name, m_semaphore.object );
 		}
 
 		if ( m_context.vkAllocateCommandBuffers )
@@ -315,14 +323,6 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
-		if ( m_context.vkDestroySemaphore && m_semaphore )
-		{
-			crgUnregisterObject( m_context, m_semaphore );
-			m_context.vkDestroySemaphore( m_context.device
-				, m_semaphore
-				, m_context.allocator );
-		}
-
 		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
 		{
 			crgUnregisterObject( m_context, m_commandBuffer );
@@ -436,14 +436,14 @@ namespace crg
 			, 1u
 			, &m_commandBuffer
 			, 1u
-			, &m_semaphore };
+			, &m_semaphore.object };
 		m_fence.reset();
 		m_context.delQueue.clear( m_context );
 		m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
 			, m_fence );
-		return { SemaphoreWait{ m_semaphore
+		return { SemaphoreWait{ m_semaphore.object
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
 
-- 
2.43.0


From 52367919f157dada521a9980329e5835d8277a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 35/59] fix: a pass whose initialisation failed can be
 initialised again

---
 .../RunnablePasses/RenderMeshHolder.hpp        |  5 +++++
 .../RunnablePasses/PipelineHolder.cpp          | 18 ++++++++++++++----
 .../RenderGraph/RunnablePasses/RenderMesh.cpp  |  3 ++-
 .../RenderGraph/RunnablePasses/RenderQuad.cpp  |  3 ++-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
index d39e7aa..fa14adf 100644
--- a/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
+++ b/include/RenderGraph/RunnablePasses/RenderMeshHolder.hpp
@@ -37,6 +37,11 @@ namespace crg
 			, uint32_t index )const;
 		CRG_API uint32_t getPassIndex()const;
 		CRG_API bool isEnabled()const;
+
+		bool isInitialised()const
+		{
+			return m_pipeline.getPipelineLayout() != VkPipelineLayout{};
+		}
 		CRG_API VkExtent2D getRenderSize()const;
 
 	private:
diff --git a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
index c899604..0f7946b 100644
--- a/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/PipelineHolder.cpp
@@ -48,10 +48,18 @@ namespace crg
 	{
 		if ( !m_pipelineLayout )
 		{
-			doFillDescriptorBindings();
-			doCreateDescriptorSetLayout();
-			doCreatePipelineLayout();
-			doCreateDescriptorPool();
+			try
+			{
+				doFillDescriptorBindings();
+				doCreateDescriptorSetLayout();
+				doCreatePipelineLayout();
+				doCreateDescriptorPool();
+			}
+			catch ( ... )
+			{
+				cleanup();
+				throw;
+			}
 		}
 	}
 
@@ -239,6 +247,8 @@ namespace crg
 			return;
 		}
 
+		descriptorSet.writes.clear();
+
 		for ( auto & attach : m_pass.images )
 		{
 			if ( attach.isSampledView() )
diff --git a/source/RenderGraph/RunnablePasses/RenderMesh.cpp b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
index c719f84..94febca 100644
--- a/source/RenderGraph/RunnablePasses/RenderMesh.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMesh.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderMesh.isInitialised() )
 		{
 			m_renderMesh.cleanup();
 			m_renderMesh.initialise( m_renderPass.getRenderSize()
diff --git a/source/RenderGraph/RunnablePasses/RenderQuad.cpp b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
index 66259b3..c4325fc 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuad.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuad.cpp
@@ -49,7 +49,8 @@ namespace crg
 		, VkCommandBuffer commandBuffer
 		, uint32_t index )
 	{
-		if ( m_renderPass.initialise( context, *this, index ) )
+		if ( m_renderPass.initialise( context, *this, index )
+			|| !m_renderQuad.isInitialised() )
 		{
 			m_renderQuad.initialise( m_renderPass.getRenderSize()
 				, m_renderPass.getRenderPass( index )
-- 
2.43.0


From f2a4a77c1e45528d984e319f35dbfbb99119aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 36/59] fix: the device errors of a run are reported, and what
 was not submitted is not taken as executed

---
 include/RenderGraph/RunnableGraph.hpp |  1 +
 include/RenderGraph/RunnablePass.hpp  |  6 ++++
 source/RenderGraph/RunnableGraph.cpp  | 46 +++++++++++++++++----------
 source/RenderGraph/RunnablePass.cpp   | 17 +++++++---
 4 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index 003f2cb..c8f95ed 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -138,6 +138,7 @@ namespace crg
 		}
 
 	private:
+		std::pair< RecordContext, RecordContext > doRecord();
 		void doRecordOutputs( RecordContext & context );
 
 	private:
diff --git a/include/RenderGraph/RunnablePass.hpp b/include/RenderGraph/RunnablePass.hpp
index 0e737d0..8c09d02 100644
--- a/include/RenderGraph/RunnablePass.hpp
+++ b/include/RenderGraph/RunnablePass.hpp
@@ -58,6 +58,11 @@ namespace crg
 
 		CRG_API void reset();
 		CRG_API VkResult wait( uint64_t timeout );
+		/**
+		*\brief
+		*	Tells that the submission the fence was reset for failed: nothing will signal it.
+		*/
+		CRG_API void cancel()noexcept;
 
 		operator VkFence()const
 		{
@@ -68,6 +73,7 @@ namespace crg
 		GraphContext * m_context;
 		VkFence m_fence{};
 		bool m_fenceWaited{};
+		bool m_cancelled{};
 	};
 
 	namespace ru
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index e74bbb6..75eead4 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -282,8 +282,8 @@ namespace crg
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo ), name + " - CommandBuffer begin" );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer ), name + " - CommandBuffer end" );
 		}
 
 		Logger::logDebug( m_graph.getName() + " - Initialising resources" );
@@ -334,6 +334,11 @@ namespace crg
 	}
 
 	void RunnableGraph::record()
+	{
+		doRecord();
+	}
+
+	std::pair< RecordContext, RecordContext > RunnableGraph::doRecord()
 	{
 		auto block( m_timer.start() );
 		m_states.clear();
@@ -361,13 +366,13 @@ namespace crg
 			recordContext.setNextPipelineState( ( *currPass )->getPipelineState()
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
-			m_fence.wait( 0xFFFFFFFFFFFFFFFFULL );
-			m_context.vkResetCommandBuffer( m_commandBuffer, 0u );
+			checkVkResult( m_fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_graph.getName() + " - Fence wait" );
+			checkVkResult( m_context.vkResetCommandBuffer( m_commandBuffer, 0u ), m_graph.getName() + " - CommandBuffer reset" );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo ), m_graph.getName() + " - CommandBuffer begin" );
 			m_timer.beginPass( m_commandBuffer );
 
 			while ( currPass != m_passes.end() )
@@ -393,10 +398,10 @@ namespace crg
 
 			doRecordOutputs( recordContext );
 			m_timer.endPass( m_commandBuffer );
-			m_context.vkEndCommandBuffer( m_commandBuffer );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer ), m_graph.getName() + " - CommandBuffer end" );
 		}
 
-		m_graph.registerFinalState( recordContext, inherited );
+		return { recordContext, inherited };
 	}
 
 	SemaphoreWaitArray RunnableGraph::run( VkQueue queue )
@@ -417,17 +422,10 @@ namespace crg
 	SemaphoreWaitArray RunnableGraph::run( SemaphoreWaitArray const & toWait
 		, VkQueue queue )
 	{
-		record();
+		auto [recorded, inherited] = doRecord();
 		std::vector< VkSemaphore > semaphores;
 		std::vector< VkPipelineStageFlags > dstStageMasks;
 		convert( toWait, semaphores, dstStageMasks );
-		m_timer.notifyPassRender();
-
-		for ( auto const & pass : m_passes )
-		{
-			pass->notifyPassRender();
-		}
-
 		VkSubmitInfo submitInfo{ VK_STRUCTURE_TYPE_SUBMIT_INFO
 			, nullptr
 			, uint32_t( semaphores.size() )
@@ -439,10 +437,26 @@ namespace crg
 			, &m_semaphore.object };
 		m_fence.reset();
 		m_context.delQueue.clear( m_context );
-		m_context.vkQueueSubmit( queue
+		auto res = m_context.vkQueueSubmit( queue
 			, 1u
 			, &submitInfo
 			, m_fence );
+
+		if ( res != VK_SUCCESS )
+		{
+			// Nothing will signal the fence, nor execute what was recorded.
+			m_fence.cancel();
+			checkVkResult( res, m_graph.getName() + " - Submission" );
+		}
+
+		m_graph.registerFinalState( recorded, inherited );
+		m_timer.notifyPassRender();
+
+		for ( auto const & pass : m_passes )
+		{
+			pass->notifyPassRender();
+		}
+
 		return { SemaphoreWait{ m_semaphore.object
 			, m_graph.getFinalStates().getCurrPipelineState().pipelineStage } };
 	}
diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index fdc8226..911012b 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -147,6 +147,7 @@ namespace crg
 		: m_context{ rhs.m_context }
 		, m_fence{ rhs.m_fence }
 		, m_fenceWaited{ rhs.m_fenceWaited }
+		, m_cancelled{ rhs.m_cancelled }
 	{
 		rhs.m_context = {};
 		rhs.m_fence = {};
@@ -172,19 +173,25 @@ namespace crg
 				wait( 0xFFFFFFFFFFFFFFFFULL );
 			}
 
-			m_context->vkResetFences( m_context->device
+			checkVkResult( m_context->vkResetFences( m_context->device
 				, 1u
-				, &m_fence );
+				, &m_fence ), "Fence reset" );
 		}
 
 		m_fenceWaited = false;
+		m_cancelled = false;
+	}
+
+	void Fence::cancel()noexcept
+	{
+		m_cancelled = true;
 	}
 
 	VkResult Fence::wait( uint64_t timeout )
 	{
 		VkResult res = VK_SUCCESS;
 
-		if ( m_fence )
+		if ( m_fence && !m_cancelled )
 		{
 			res = m_context->vkWaitForFences( m_context->device
 				, 1u
@@ -355,9 +362,9 @@ namespace crg
 			, nullptr
 			, VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT
 			, nullptr };
-		m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo );
+		checkVkResult( m_context.vkBeginCommandBuffer( enabled.commandBuffer, &beginInfo ), m_pass.getGroupName() + " - CommandBuffer begin" );
 		recordInto( enabled.commandBuffer, index, context );
-		m_context.vkEndCommandBuffer( enabled.commandBuffer );
+		checkVkResult( m_context.vkEndCommandBuffer( enabled.commandBuffer ), m_pass.getGroupName() + " - CommandBuffer end" );
 	}
 
 	void RunnablePass::recordInto( VkCommandBuffer commandBuffer
-- 
2.43.0


From 4e565d7c9737e69ede7f99c0c12a58157e7e615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 37/59] fix: a resources cache owns the images its views need,
 and forgets the resources it destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bc197cc..8884b1e 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -610,6 +610,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// The image may have to be created too, the cache then owns it.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
@@ -628,6 +630,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -641,6 +644,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 43825bcae059b0755463f35f4a5964cea5ec352e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 38/59] fix: a graph compiled anew does not take its new images
 for the previous ones

---
 include/RenderGraph/RecordContext.hpp   | 1 +
 include/RenderGraph/ResourceHandler.hpp | 1 +
 source/RenderGraph/RecordContext.cpp    | 5 +++++
 source/RenderGraph/ResourceHandler.cpp  | 5 +++++
 source/RenderGraph/RunnableGraph.cpp    | 8 ++++++++
 5 files changed, 20 insertions(+)

diff --git a/include/RenderGraph/RecordContext.hpp b/include/RenderGraph/RecordContext.hpp
index 0040199..e288826 100644
--- a/include/RenderGraph/RecordContext.hpp
+++ b/include/RenderGraph/RecordContext.hpp
@@ -35,6 +35,7 @@ namespace crg
 		*/
 		//@{
 		CRG_API void addStates( RecordContext const & data );
+		CRG_API void forgetState( ImageId const & image );
 		CRG_API RecordContext getChanges( RecordContext const & previous )const;
 		/**
 		*\name	Pipeline
diff --git a/include/RenderGraph/ResourceHandler.hpp b/include/RenderGraph/ResourceHandler.hpp
index a220b10..27e2db4 100644
--- a/include/RenderGraph/ResourceHandler.hpp
+++ b/include/RenderGraph/ResourceHandler.hpp
@@ -92,6 +92,7 @@ namespace crg
 		CRG_API VkImageView createImageView( ImageViewId const & viewId );
 		CRG_API bool destroyImage( ImageId const & imageId );
 		CRG_API bool destroyImageView( ImageViewId const & viewId );
+		CRG_API bool ownsImage( ImageId const & imageId )const;
 
 		CRG_API VkSampler createSampler( SamplerDesc const & samplerDesc );
 		CRG_API VertexBuffer const & createQuadTriVertexBuffer( bool texCoords
diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 41a917b..ff0f6ff 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -120,6 +120,11 @@ namespace crg
 		}
 	}
 
+	void RecordContext::forgetState( ImageId const & image )
+	{
+		m_images.images.erase( image.id );
+	}
+
 	RecordContext RecordContext::getChanges( RecordContext const & previous )const
 	{
 		auto result = *this;
diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 8884b1e..0cf452e 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -650,6 +650,11 @@ namespace crg
 		return result;
 	}
 
+	bool ContextResourcesCache::ownsImage( ImageId const & imageId )const
+	{
+		return m_images.find( imageId ) != m_images.end();
+	}
+
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 75eead4..0a08397 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -291,6 +291,14 @@ namespace crg
 		for ( auto & img : m_graph.m_images )
 		{
 			m_resources.createImage( img );
+
+			if ( m_resources.ownsImage( img ) )
+			{
+				// The graph may have been compiled and run before, with another image.
+				m_graph.m_finalState.forgetState( img );
+				m_graph.m_changedState.forgetState( img );
+				m_graph.m_history.forgetState( img );
+			}
 		}
 
 		for ( auto & view : m_graph.m_imageViews )
-- 
2.43.0


From 82ae0d541ef663c1d7824fdf75ed2518a320563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 39/59] fix: inverted texture coordinates of a quad are in
 [0,1] on its visible part

---
 source/RenderGraph/ResourceHandler.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 0cf452e..5f43aac 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -412,16 +412,11 @@ namespace crg
 
 				if ( buffer )
 				{
-					auto rangeU = 1.0;
-					auto minU = 0.0;
-					auto maxU = minU + 2.0 * rangeU;
-					auto rangeV = 1.0;
-					auto minV = -rangeV;
-					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
+					// The triangle covers twice the screen: [0,1] for its visible part, in the wanted direction.
+					auto realMinU = config.invertU ? 1.0f : 0.0f;
+					auto realMaxU = config.invertU ? -1.0f : 2.0f;
+					auto realMinV = config.invertV ? 2.0f : -1.0f;
+					auto realMaxV = config.invertV ? 0.0f : 1.0f;
 					std::array<reshdl::Quad::Vertex, 3u > vertexData
 					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
 						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-- 
2.43.0


From 114cf06331b14e34d83d3590920c5d9bfae40e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:40 +0000
Subject: [PATCH 40/59] fix: several push constant ranges can be given to a
 compute pass

---
 include/RenderGraph/RunnablePasses/ComputePass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/RenderGraph/RunnablePasses/ComputePass.hpp b/include/RenderGraph/RunnablePasses/ComputePass.hpp
index 8585443..e294594 100644
--- a/include/RenderGraph/RunnablePasses/ComputePass.hpp
+++ b/include/RenderGraph/RunnablePasses/ComputePass.hpp
@@ -216,7 +216,7 @@ namespace crg
 			*/
 			auto & pushConstants( VkPushConstantRangeArray config )
 			{
-				m_baseConfig.m_pushConstants( std::move( config ) );
+				m_baseConfig.pushConstants( std::move( config ) );
 				return *this;
 			}
 
-- 
2.43.0


From 77267b9ae1bf548a038d222434f4abb5081d30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 41/59] fix: views with different components are not the same
 view

---
 include/RenderGraph/ImageViewData.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..824aa44 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -53,6 +53,10 @@ namespace crg
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components.r == rhs.components.r
+			&& lhs.components.g == rhs.components.g
+			&& lhs.components.b == rhs.components.b
+			&& lhs.components.a == rhs.components.a
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From 467c1b8cdd7cbd81804204711fcb1b92ae409c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 42/59] fix: an image accessed in another way from the same
 stage needs a barrier

---
 source/RenderGraph/RecordContext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index ff0f6ff..8c419ee 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -58,7 +58,8 @@ namespace crg
 			, AccessState const & wanted )
 		{
 			// Same accesses from same stages only need no barrier when nothing is written.
-			return from.pipelineStage != wanted.pipelineStage
+			return from.access != wanted.access
+				|| from.pipelineStage != wanted.pipelineStage
 				|| hasWrite( from.access )
 				|| hasWrite( wanted.access );
 		}
@@ -425,7 +426,6 @@ namespace crg
 		}
 
 		if ( force
-			|| from.access != wantedState.access
 			|| recctx::needsBarrier( from, wantedState ) )
 		{
 			auto const & resources = getResources();
-- 
2.43.0


From 5f83b004017f74ae117f6dc250a22fb02b23f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 43/59] fix: the implicit copy and blit are done for all the
 layers of the views

---
 source/RenderGraph/RecordContext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 8c419ee..96623b6 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -489,9 +489,10 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			auto layerCount = std::min( srcSubresource.layerCount, dstSubresource.layerCount );
+			VkImageCopy region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, layerCount }
 				, VkOffset3D{ 0u, 0u, 0u }
 			, { extent.width, extent.height, 1u } };
 			recContext.memoryBarrier( commandBuffer
@@ -542,10 +543,11 @@ namespace crg
 				, srcView );
 			auto & srcSubresource = srcView.data->info.subresourceRange;
 			auto & dstSubresource = dstView.data->info.subresourceRange;
-			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
+			auto layerCount = std::min( srcSubresource.layerCount, dstSubresource.layerCount );
+			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, layerCount }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
 					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
-				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
+				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, layerCount }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
 					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
-- 
2.43.0


From 2c3f53296ec142ead77c9022c31ace52a9af521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 44/59] fix: the transitions from the root of a graph can be
 retrieved

---
 source/RenderGraph/GraphNode.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/GraphNode.cpp b/source/RenderGraph/GraphNode.cpp
index 5c2ceaa..102133e 100644
--- a/source/RenderGraph/GraphNode.cpp
+++ b/source/RenderGraph/GraphNode.cpp
@@ -10,6 +10,15 @@ See LICENSE file in root folder.
 
 namespace crg
 {
+	namespace gphnode
+	{
+		static ConstGraphAdjacentNode makeKey( ConstGraphAdjacentNode prev )
+		{
+			// The root is moved to the runnable graph, once the nodes are attached to it.
+			return isRootNode( prev ) ? nullptr : prev;
+		}
+	}
+
 	//*********************************************************************************************
 
 	GraphNode::GraphNode( GraphNode && rhs )noexcept
@@ -38,7 +47,7 @@ namespace crg
 		, AttachmentTransitions inAttaches )
 	{
 		bool dirty = false;
-		auto * mine = &this->inputAttaches[prev];
+		auto * mine = &this->inputAttaches[gphnode::makeKey( prev )];
 
 		for ( auto & attach : inAttaches.viewTransitions )
 		{
@@ -88,7 +97,7 @@ namespace crg
 
 	AttachmentTransitions const & GraphNode::getInputAttaches( ConstGraphAdjacentNode const pred )const
 	{
-		auto it = inputAttaches.find( pred );
+		auto it = inputAttaches.find( gphnode::makeKey( pred ) );
 		assert( it != inputAttaches.end() );
 		return it->second;
 	}
-- 
2.43.0


From 2dac67ce65d9bbda4becbeec37d7e8f8de4f54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 45/59] fix: the images which are read, and that no pass
 writes, come from the outside

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index a7dbe00..b465faa 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -548,8 +548,7 @@ namespace crg::builder
 		{
 			auto & transitions = insertPass( attach.pass, inputTransitions ).transitions;
 
-			if ( attach.isColourInputAttach()
-				|| attach.isSampledView() )
+			if ( attach.isInput() )
 			{
 				ViewTransition transition{ attach.view(), Attachment::createDefault( attach.view() ), attach };
 				insertTransition( transition, cache, transitions.viewTransitions );
-- 
2.43.0


From c1fc4a42f5ea3053f326a5f3e63c24a224291eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 46/59] fix: no transition is reported between attachments
 which do not overlap

---
 source/RenderGraph/FramePassDependenciesBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FramePassDependenciesBuilder.cpp b/source/RenderGraph/FramePassDependenciesBuilder.cpp
index b465faa..e87299f 100644
--- a/source/RenderGraph/FramePassDependenciesBuilder.cpp
+++ b/source/RenderGraph/FramePassDependenciesBuilder.cpp
@@ -650,9 +650,10 @@ namespace crg::builder
 			, FramePassDependencies & outputTransitions
 			, AttachmentTransitions & allTransitions )
 		{
-			if ( inputAttach.pass->dependsOn( *outputAttach.pass
-				, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
-				, cache ) )
+			if ( areOverlapping< DataT >( inputAttach, outputAttach )
+				&& inputAttach.pass->dependsOn( *outputAttach.pass
+					, AttachDataTraitsT< DataT >::getOutput( inputAttach, outputAttach )
+					, cache ) )
 			{
 				addDependency< DataT >( outputAttach
 					, inputAttach
-- 
2.43.0


From b8d68caefd1450b97c0c2b3af3361c3bec6a38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 47/59] fix: the dot export of the transitions to a stream is
 made of one graph

---
 source/RenderGraph/DotExport.cpp | 47 ++++++++++++++++----------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index 1d314b5..de528e6 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -799,6 +799,28 @@ namespace crg::dot
 			Config const & m_config;
 			std::set< GraphNode const * > & m_visited;
 		};
+
+		static void display( std::ostream & stream
+			, DisplayResult const & result
+			, Config const & config )
+		{
+			if ( config.splitGroups )
+			{
+				for ( auto const & [name, strm] : result )
+				{
+					if ( !name.empty() )
+					{
+						stream << strm.str();
+					}
+				}
+			}
+			else if ( auto it = result.find( std::string{} );
+				it != result.end() )
+			{
+				// The groups are already part of the whole graph.
+				stream << it->second.str();
+			}
+		}
 	}
 
 	DisplayResult displayPasses( RunnableGraph const & value
@@ -822,34 +844,13 @@ namespace crg::dot
 		, RunnableGraph const & value
 		, Config const & config )
 	{
-		auto result = displayPasses( value, config );
-
-		if ( config.splitGroups )
-		{
-			for ( auto const & [name, strm] : result )
-			{
-				if ( !name.empty() )
-				{
-					stream << strm.str();
-				}
-			}
-		}
-		else
-		{
-			auto it = result.find( std::string{} );
-			stream << it->second.str();
-		}
+		dotexp::display( stream, displayPasses( value, config ), config );
 	}
 
 	void displayTransitions( std::ostream & stream
 		, RunnableGraph const & value
 		, Config const & config )
 	{
-		auto result = displayTransitions( value, config );
-
-		for ( auto const & [_, strm] : result )
-		{
-			stream << strm.str();
-		}
+		dotexp::display( stream, displayTransitions( value, config ), config );
 	}
 }
-- 
2.43.0


From e6e6bb7f7522d46f7eee5246d8bf3fe1aa8730a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 48/59] fix: groups of the same name are displayed once each in
 the dot exports

---
 source/RenderGraph/DotExport.cpp | 115 ++++++++++++++++---------------
 1 file changed, 60 insertions(+), 55 deletions(-)

diff --git a/source/RenderGraph/DotExport.cpp b/source/RenderGraph/DotExport.cpp
index de528e6..14ad6ec 100644
--- a/source/RenderGraph/DotExport.cpp
+++ b/source/RenderGraph/DotExport.cpp
@@ -335,72 +335,77 @@ namespace crg::dot
 				}
 				else
 				{
-					auto & stream = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
+					writeNested( streams, global );
+				}
+			}
 
-					if ( m_group )
-					{
-						if ( m_config.withGroups )
-						{
-							static std::vector< std::string_view > colours
-							{
-								{ "#FFFFFF" },
-								{ "#EEEEEE" },
-								{ "#DDDDDD" },
-								{ "#CCCCCC" },
-								{ "#BBBBBB" },
-								{ "#AAAAAA" },
-								{ "#999999" },
-								{ "#888888" },
-							};
-							stream << "subgraph cluster_" << m_group->id << " {\n";
-							stream << "  label=\"" << m_group->getName() << "\";\n";
-
-							if ( m_config.withColours )
-							{
-								stream << "  style=filled;\n";
-								stream << "  fillcolor=\"" << colours[std::min( size_t( getLevel() ), colours.size() - 1u )] << "\";\n";
-								stream << "  color=black;\n";
-							}
-						}
-					}
-					else
-					{
-						stream << "digraph {\n";
-					}
+			std::string writeNested( DisplayResult & streams
+				, std::stringstream const & global = std::stringstream{} )const
+			{
+				std::stringstream stream;
 
+				if ( m_group )
+				{
 					if ( m_config.withGroups )
 					{
-						stream << Indent{ 2 };
+						static std::vector< std::string_view > colours
+						{
+							{ "#FFFFFF" },
+							{ "#EEEEEE" },
+							{ "#DDDDDD" },
+							{ "#CCCCCC" },
+							{ "#BBBBBB" },
+							{ "#AAAAAA" },
+							{ "#999999" },
+							{ "#888888" },
+						};
+						stream << "subgraph cluster_" << m_group->id << " {\n";
+						stream << "  label=\"" << m_group->getName() << "\";\n";
+
+						if ( m_config.withColours )
+						{
+							stream << "  style=filled;\n";
+							stream << "  fillcolor=\"" << colours[std::min( size_t( getLevel() ), colours.size() - 1u )] << "\";\n";
+							stream << "  color=black;\n";
+						}
 					}
+				}
+				else
+				{
+					stream << "digraph {\n";
+				}
 
-					for ( auto & group : m_children )
-					{
-						group->write( streams );
-						stream << streams.find( group->getName() )->second.str();
-					}
+				if ( m_config.withGroups )
+				{
+					stream << Indent{ 2 };
+				}
 
-					auto & stream2 = streams.try_emplace( m_group ? m_group->getName() : std::string{} ).first->second;
+				for ( auto & group : m_children )
+				{
+					stream << group->writeNested( streams );
+				}
 
-					if ( m_config.withGroups )
-					{
-						stream2 << Indent{ -2 };
-					}
+				if ( m_config.withGroups )
+				{
+					stream << Indent{ -2 };
+				}
 
-					stream2 << m_stream.str();
+				stream << m_stream.str();
 
-					if ( !m_group )
-					{
-						stream2 << global.str();
-						stream2 << "}\n";
-					}
-					else
-					{
-						if ( m_config.withGroups )
-						{
-							stream2 << "}\n";
-						}
-					}
+				if ( !m_group )
+				{
+					stream << global.str();
+					stream << "}\n";
+				}
+				else if ( m_config.withGroups )
+				{
+					stream << "}\n";
 				}
+
+				// Groups with different parents can have the same name.
+				auto result = stream.str();
+				streams.try_emplace( getName() ).first->second << result;
+				return result;
 			}
 
 			std::string const & getName()const
-- 
2.43.0


From dee629c39ec3a0576b41d046e44132fd35244c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 49/59] fix: a buffer attachment is not a colour attachment

---
 include/RenderGraph/Attachment.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/RenderGraph/Attachment.hpp b/include/RenderGraph/Attachment.hpp
index 368fd82..7841a8d 100644
--- a/include/RenderGraph/Attachment.hpp
+++ b/include/RenderGraph/Attachment.hpp
@@ -495,12 +495,7 @@ namespace crg
 
 		bool isColourAttach()const
 		{
-			return !isSampledView()
-				&& !isTransitionView()
-				&& !isStorageView()
-				&& !isTransferView()
-				&& !isDepthAttach()
-				&& !isStencilAttach();
+			return isImage() && imageAttach.isColourAttach();
 		}
 
 		bool isColourInputAttach()const
-- 
2.43.0


From fb554a52670d307cf17e68a3d0dc03eff028a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 50/59] fix: the implicit actions are run before the
 transitions of the pass which needs them

---
 source/RenderGraph/RunnablePass.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 911012b..fd8381d 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -396,10 +396,15 @@ namespace crg
 
 			for ( auto & attach : m_pass.images )
 			{
-				auto view = attach.view( index );
+				// The implicit actions change the state of the views they read too.
 				context.runImplicitTransition( commandBuffer
 					, index
-					, view );
+					, attach.view( index ) );
+			}
+
+			for ( auto & attach : m_pass.images )
+			{
+				auto view = attach.view( index );
 
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
-- 
2.43.0


From f3d982f0ced35abf6fea2038740d40b3f5853a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:40 +0000
Subject: [PATCH 51/59] fix: the implicit actions know the state of the views
 no other pass used

---
 source/RenderGraph/RunnablePass.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index fd8381d..465f415 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -505,7 +505,20 @@ namespace crg
 
 		for ( auto const & [view, action] : m_ruConfig.implicitActions )
 		{
-			context.registerImplicitTransition( *this, view, action );
+			context.registerImplicitTransition( *this
+				, view
+				, [this, index, &action]( RecordContext & recContext
+					, VkCommandBuffer cmdBuffer
+					, uint32_t passIndex )
+				{
+					// The views may not have been used by any other pass of the graph.
+					for ( auto & attach : m_pass.images )
+					{
+						m_graph.getCurrentLayoutState( recContext, attach.view( index ) );
+					}
+
+					action( recContext, cmdBuffer, passIndex );
+				} );
 		}
 	}
 
-- 
2.43.0


From d5775e31ffc22c2d117f443bee4bb9c95e48e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:45 +0000
Subject: [PATCH 52/59] fix: a semaphore waited for twice is waited for at all
 the given stages

---
 source/RenderGraph/RunnablePass.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 465f415..2d7950c 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,14 +47,24 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( !wait.semaphore )
+			{
+				continue;
+			}
+
+			auto it = std::find( semaphores.begin()
+				, semaphores.end()
+				, wait.semaphore );
+
+			if ( it == semaphores.end() )
 			{
 				semaphores.push_back( wait.semaphore );
 				dstStageMasks.push_back( wait.dstStageMask );
 			}
+			else
+			{
+				dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+			}
 		}
 	}
 
-- 
2.43.0


From da84fc4dcee1994324e1bdc82fd65bc691733402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:04 +0000
Subject: [PATCH 53/59] fix: the rainbow colours of the debug labels raced
 between threads

---
 source/RenderGraph/GraphContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/GraphContext.cpp b/source/RenderGraph/GraphContext.cpp
index 3c403ce..eed7680 100644
--- a/source/RenderGraph/GraphContext.cpp
+++ b/source/RenderGraph/GraphContext.cpp
@@ -200,7 +200,7 @@ namespace crg
 
 	std::array< float, 4u > GraphContext::getNextRainbowColour()const
 	{
-		static float currentColourHue{ 0.0f };
+		static thread_local float currentColourHue{ 0.0f };
 		currentColourHue += 0.0125f;
 
 		if ( currentColourHue > 1.0f )
-- 
2.43.0


From aba4fdd2840908648285d7b006edec1c6a3df3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 54/59] fix: a graph whose compilation failed left its command
 buffer in the list of the objects to destroy

---
 include/RenderGraph/RunnableGraph.hpp |  2 +-
 source/RenderGraph/RunnableGraph.cpp  | 39 ++++++++++++++++-----------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/RenderGraph/RunnableGraph.hpp b/include/RenderGraph/RunnableGraph.hpp
index c8f95ed..6259b4e 100644
--- a/include/RenderGraph/RunnableGraph.hpp
+++ b/include/RenderGraph/RunnableGraph.hpp
@@ -153,7 +153,7 @@ namespace crg
 		ContextObjectT< VkCommandPool > m_commandPool;
 		std::vector< RunnablePassPtr > m_passes;
 		RecordContext::GraphIndexMap m_states;
-		VkCommandBuffer m_commandBuffer{};
+		ContextObjectT< VkCommandBuffer > m_commandBuffer;
 		ContextObjectT< VkSemaphore > m_semaphore;
 		Fence m_fence;
 		FramePassTimer m_timer;
diff --git a/source/RenderGraph/RunnableGraph.cpp b/source/RenderGraph/RunnableGraph.cpp
index 0a08397..b3e255b 100644
--- a/source/RenderGraph/RunnableGraph.cpp
+++ b/source/RenderGraph/RunnableGraph.cpp
@@ -237,6 +237,14 @@ namespace crg
 				ctx.vkDestroyCommandPool( ctx.device, object, ctx.allocator );
 				object = {};
 			} }
+		, m_commandBuffer{ m_context
+			, {}
+			, []( GraphContext & ctx, VkCommandBuffer & object )noexcept
+			{
+				// Reached when the construction fails, the command pool frees it.
+				crgUnregisterObject( ctx, object );
+				object = {};
+			} }
 		, m_semaphore{ m_context
 			, {}
 			, []( GraphContext & ctx, VkSemaphore & object )noexcept
@@ -274,16 +282,16 @@ namespace crg
 				, 1u };
 			auto res = m_context.vkAllocateCommandBuffers( m_context.device
 				, &allocateInfo
-				, &m_commandBuffer );
+				, &m_commandBuffer.object );
 			checkVkResult( res, name + " - CommandBuffer allocation" );
-			crgRegisterObject( m_context, name, m_commandBuffer );
+			crgRegisterObject( m_context, name, m_commandBuffer.object );
 
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo ), name + " - CommandBuffer begin" );
-			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer ), name + " - CommandBuffer end" );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer.object, &beginInfo ), name + " - CommandBuffer begin" );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer.object ), name + " - CommandBuffer end" );
 		}
 
 		Logger::logDebug( m_graph.getName() + " - Initialising resources" );
@@ -331,13 +339,14 @@ namespace crg
 
 	RunnableGraph::~RunnableGraph()noexcept
 	{
-		if ( m_context.vkFreeCommandBuffers && m_commandBuffer )
+		if ( m_context.vkFreeCommandBuffers && m_commandBuffer.object )
 		{
-			crgUnregisterObject( m_context, m_commandBuffer );
+			crgUnregisterObject( m_context, m_commandBuffer.object );
 			m_context.vkFreeCommandBuffers( m_context.device
 				, getCommandPool()
 				, 1u
-				, &m_commandBuffer );
+				, &m_commandBuffer.object );
+			m_commandBuffer.object = {};
 		}
 	}
 
@@ -375,13 +384,13 @@ namespace crg
 				, ( *currPass )->getImageLayouts() );
 			auto nextPass = std::next( currPass );
 			checkVkResult( m_fence.wait( 0xFFFFFFFFFFFFFFFFULL ), m_graph.getName() + " - Fence wait" );
-			checkVkResult( m_context.vkResetCommandBuffer( m_commandBuffer, 0u ), m_graph.getName() + " - CommandBuffer reset" );
+			checkVkResult( m_context.vkResetCommandBuffer( m_commandBuffer.object, 0u ), m_graph.getName() + " - CommandBuffer reset" );
 			VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 				, nullptr
 				, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT
 				, nullptr };
-			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer, &beginInfo ), m_graph.getName() + " - CommandBuffer begin" );
-			m_timer.beginPass( m_commandBuffer );
+			checkVkResult( m_context.vkBeginCommandBuffer( m_commandBuffer.object, &beginInfo ), m_graph.getName() + " - CommandBuffer begin" );
+			m_timer.beginPass( m_commandBuffer.object );
 
 			while ( currPass != m_passes.end() )
 			{
@@ -400,13 +409,13 @@ namespace crg
 						, m_graph.getOutputLayoutStates() );
 				}
 
-				*it = pass->recordCurrentInto( recordContext, m_commandBuffer );
+				*it = pass->recordCurrentInto( recordContext, m_commandBuffer.object );
 				++it;
 			}
 
 			doRecordOutputs( recordContext );
-			m_timer.endPass( m_commandBuffer );
-			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer ), m_graph.getName() + " - CommandBuffer end" );
+			m_timer.endPass( m_commandBuffer.object );
+			checkVkResult( m_context.vkEndCommandBuffer( m_commandBuffer.object ), m_graph.getName() + " - CommandBuffer end" );
 		}
 
 		return { recordContext, inherited };
@@ -440,7 +449,7 @@ namespace crg
 			, semaphores.data()
 			, dstStageMasks.data()
 			, 1u
-			, &m_commandBuffer
+			, &m_commandBuffer.object
 			, 1u
 			, &m_semaphore.object };
 		m_fence.reset();
@@ -568,7 +577,7 @@ namespace crg
 					current.layout != VK_IMAGE_LAYOUT_UNDEFINED
 					&& current.layout != output.layout )
 				{
-					context.memoryBarrier( m_commandBuffer
+					context.memoryBarrier( m_commandBuffer.object
 						, image
 						, viewType
 						, subresource
-- 
2.43.0


From aead7d0ffda57f0958fe07898aa3cd9f54b7e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:37 +0000
Subject: [PATCH 55/59] fix: the name of a device was given as that of a
 physical device

---
 include/RenderGraph/GraphContext.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/RenderGraph/GraphContext.hpp b/include/RenderGraph/GraphContext.hpp
index e68685e..f052ba5 100644
--- a/include/RenderGraph/GraphContext.hpp
+++ b/include/RenderGraph/GraphContext.hpp
@@ -49,10 +49,10 @@ namespace crg
 	struct DebugTypeTraits< VkDevice >
 	{
 #if VK_EXT_debug_utils
-		static VkObjectType constexpr UtilsValue = VK_OBJECT_TYPE_PHYSICAL_DEVICE;
+		static VkObjectType constexpr UtilsValue = VK_OBJECT_TYPE_DEVICE;
 #endif
 #if VK_EXT_debug_report || VK_EXT_debug_marker
-		static VkDebugReportObjectTypeEXT constexpr ReportValue = VK_DEBUG_REPORT_OBJECT_TYPE_PHYSICAL_DEVICE_EXT;
+		static VkDebugReportObjectTypeEXT constexpr ReportValue = VK_DEBUG_REPORT_OBJECT_TYPE_DEVICE_EXT;
 #endif
 		static inline std::string Name{ "VkDevice" };
 	};
-- 
2.43.0


From fecdecba2b489b48965ac4d820bcde18e5f859cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:53 +0000
Subject: [PATCH 56/59] fix: recording a pass alone replaced objects which a
 pending run of its graph uses

---
 source/RenderGraph/RunnablePass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 2d7950c..2ff82a7 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -367,6 +367,8 @@ namespace crg
 
 		assert( m_passes.size() > index );
 		auto & pass = m_passes[index];
+		// Recording can replace objects which the graph's last run still uses.
+		m_graph.getFence().wait( 0xFFFFFFFFFFFFFFFFULL );
 		pass.fence.wait( 0xFFFFFFFFFFFFFFFFULL );
 		VkCommandBufferBeginInfo beginInfo{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO
 			, nullptr
-- 
2.43.0


From c31955c6b52ad20f0842db63d975d89ca05bdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:21 +0000
Subject: [PATCH 57/59] fix: graphics pipelines were created with a line width
 of 0

---
 source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp | 2 +-
 source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
index ee2f234..84c5703 100644
--- a/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp
@@ -60,7 +60,7 @@ namespace crg
 			, 0.0f
 			, 0.0f
 			, 0.0f
-			, 0.0f };
+			, 1.0f };
 	}
 
 	void RenderMeshHolder::initialise( VkExtent2D const & renderSize
diff --git a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
index cf1cbff..f7a2dac 100644
--- a/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp
@@ -60,7 +60,7 @@ namespace crg
 			, 0.0f
 			, 0.0f
 			, 0.0f
-			, 0.0f };
+			, 1.0f };
 	}
 
 	void RenderQuadHolder::initialise( VkExtent2D const & renderSize
-- 
2.43.0


From faf5b0f5dd27ca2ae2a53c250e3be5247024f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:24 +0000
Subject: [PATCH 58/59] fix: mipmaps of depth and stencil images were blitted
 with a linear filter

---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 51660dd..4cfbf28 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -63,6 +63,10 @@ namespace crg
 		auto const height = int32_t( extent.height );
 		auto const depth = int32_t( extent.depth );
 		auto const aspectMask = getAspectMask( format );
+		// Depth and stencil formats can only be blitted without filtering
+		auto const filter = isColourFormat( format )
+			? VK_FILTER_LINEAR
+			: VK_FILTER_NEAREST;
 
 		for ( uint32_t i = 0u; i < layerCount; ++i )
 		{
@@ -128,7 +132,7 @@ namespace crg
 					, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL
 					, 1u
 					, &imageBlit
-					, VK_FILTER_LINEAR );
+					, filter );
 
 				// Transition previous mip level to wanted output layout
 				context.memoryBarrier( commandBuffer
-- 
2.43.0


From 3e36664781fca50a15f51dd3ca41fe83fe5aab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:27 +0000
Subject: [PATCH 59/59] fix: the reads of uniform buffers were not among the
 accesses which their barriers cover

---
 source/RenderGraph/Attachment.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index fa58287..e0b8e7e 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -141,6 +141,11 @@ namespace crg
 				result |= VK_ACCESS_TRANSFER_WRITE_BIT;
 			}
 		}
+		else if ( isUniform() && !isUniformView() )
+		{
+			// Only the texel buffers are covered by the shader read access.
+			result |= VK_ACCESS_UNIFORM_READ_BIT;
+		}
 		else
 		{
 			result |= VK_ACCESS_SHADER_READ_BIT;
-- 
2.43.0

