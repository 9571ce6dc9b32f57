// A small recording stand-in for a Vulkan device, for demonstrations.
#pragma once
#include <vulkan/vulkan.h>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rec
{
	struct Ev
	{
		std::string fn;                     // barrier copy blit b2i i2b bcopy fill clear begin end draw dispatch user submit wait reset update ...
		std::string text;
		VkImageMemoryBarrier img{};
		VkBufferMemoryBarrier buf{};
		VkPipelineStageFlags src{}, dst{};
		uint64_t a{}, b{};
		VkImageSubresourceRange range{};
		VkImageCopy icopy{};
		VkImageBlit iblit{};
		VkBufferCopy bcopy{};
		VkBufferImageCopy bicopy{};
		VkRect2D area{};
		std::vector< VkClearValue > clears;
		std::vector< uint64_t > h;
		std::vector< uint32_t > n;
		VkImageLayout l1{}, l2{};
	};
	struct Rec
	{
		uint64_t next{ 0x1000 };
		std::vector< Ev > ev;                       // everything, in call order
		std::map< uint64_t, std::string > live;     // handle -> type
		std::map< std::string, int > created, destroyed, calls;
		std::vector< std::string > bad;             // destructions of objects which are not alive
		std::map< uint64_t, VkImageCreateInfo > images;
		std::map< uint64_t, VkImageViewCreateInfo > views;
		struct RP { std::vector< VkAttachmentDescription > att; std::vector< VkSubpassDependency > deps; };
		std::map< uint64_t, RP > rps;
		struct FB { std::vector< VkImageView > v; uint32_t w, h, l; };
		std::map< uint64_t, FB > fbs;
		std::map< uint64_t, std::vector< VkDescriptorSetLayoutBinding > > dsls;
		std::map< std::string, int > failAt;        // call name -> index of the call (from 0) which fails
		std::vector< VkSemaphore > lastWaits, lastSignals;
		std::vector< VkPipelineStageFlags > lastStages;
		std::vector< uint64_t > queryValues;
	};
	inline Rec R;

	template< typename H > H make( char const * t, bool & ok )
	{
		auto & n = R.calls[t];
		auto it = R.failAt.find( t );
		ok = !( it != R.failAt.end() && it->second == n );
		++n;
		if ( !ok ) return H{};
		++R.created[t];
		R.live[++R.next] = t;
		return H( R.next );
	}
	template< typename H > void kill( char const * t, H h )
	{
		auto it = R.live.find( uint64_t( h ) );
		if ( !h ) return;
		if ( it == R.live.end() ) { R.bad.push_back( std::string( t ) + " destroyed while not alive" ); return; }
		++R.destroyed[t];
		{ Ev e; e.fn = std::string( "destroy:" ) + t; e.a = uint64_t( h ); R.ev.push_back( e ); }
		R.live.erase( it );
	}
	using A = VkAllocationCallbacks const *;
#define REC_CREATE( Name, VkT, CI, ... )\
	inline VKAPI_ATTR VkResult VKAPI_CALL Create##Name( VkDevice, CI const * ci, A, VkT * out )\
	{ ( void )ci; bool ok; *out = make< VkT >( #Name, ok ); if ( !ok ) return VK_ERROR_OUT_OF_DEVICE_MEMORY; __VA_ARGS__; return VK_SUCCESS; }\
	inline VKAPI_ATTR void VKAPI_CALL Destroy##Name( VkDevice, VkT h, A ){ kill( #Name, h ); }
	REC_CREATE( Buffer, VkBuffer, VkBufferCreateInfo, )
	REC_CREATE( Image, VkImage, VkImageCreateInfo, R.images[uint64_t( *out )] = *ci )
	REC_CREATE( ImageView, VkImageView, VkImageViewCreateInfo, R.views[uint64_t( *out )] = *ci )
	REC_CREATE( Sampler, VkSampler, VkSamplerCreateInfo, )
	REC_CREATE( PipelineLayout, VkPipelineLayout, VkPipelineLayoutCreateInfo, )
	REC_CREATE( DescriptorSetLayout, VkDescriptorSetLayout, VkDescriptorSetLayoutCreateInfo, R.dsls[uint64_t( *out )].assign( ci->pBindings, ci->pBindings + ci->bindingCount ) )
	REC_CREATE( DescriptorPool, VkDescriptorPool, VkDescriptorPoolCreateInfo, )
	REC_CREATE( RenderPass, VkRenderPass, VkRenderPassCreateInfo, R.rps[uint64_t( *out )].att.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount ); R.rps[uint64_t( *out )].deps.assign( ci->pDependencies, ci->pDependencies + ci->dependencyCount ) )
	REC_CREATE( Framebuffer, VkFramebuffer, VkFramebufferCreateInfo, R.fbs[uint64_t( *out )] = Rec::FB{ { ci->pAttachments, ci->pAttachments + ci->attachmentCount }, ci->width, ci->height, ci->layers } )
	REC_CREATE( CommandPool, VkCommandPool, VkCommandPoolCreateInfo, )
	REC_CREATE( Semaphore, VkSemaphore, VkSemaphoreCreateInfo, )
	REC_CREATE( QueryPool, VkQueryPool, VkQueryPoolCreateInfo, )
	REC_CREATE( Event, VkEvent, VkEventCreateInfo, )
	REC_CREATE( Fence, VkFence, VkFenceCreateInfo, )
	inline void simple( char const * fn, uint64_t a = 0, uint64_t b = 0 );
	inline VKAPI_ATTR VkResult VKAPI_CALL CreateGraphicsPipelines( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * ci, A, VkPipeline * out )
	{ for ( uint32_t i = 0; i < n; ++i ) { bool ok; out[i] = make< VkPipeline >( "Pipeline", ok ); if ( !ok ) return VK_ERROR_OUT_OF_DEVICE_MEMORY; simple( "pipeline", uint64_t( ci[i].renderPass ), ci[i].pColorBlendState ? ci[i].pColorBlendState->attachmentCount : 0u ); } return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL CreateComputePipelines( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const *, A, VkPipeline * out )
	{ for ( uint32_t i = 0; i < n; ++i ) { bool ok; out[i] = make< VkPipeline >( "Pipeline", ok ); if ( !ok ) return VK_ERROR_OUT_OF_DEVICE_MEMORY; } return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL DestroyPipeline( VkDevice, VkPipeline h, A ){ kill( "Pipeline", h ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL AllocateDescriptorSets( VkDevice, VkDescriptorSetAllocateInfo const * ai, VkDescriptorSet * out )
	{ for ( uint32_t i = 0; i < ai->descriptorSetCount; ++i ) { bool ok; out[i] = make< VkDescriptorSet >( "DescriptorSet", ok ); if ( !ok ) return VK_ERROR_OUT_OF_POOL_MEMORY; } return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL FreeDescriptorSets( VkDevice, VkDescriptorPool, uint32_t n, VkDescriptorSet const * s ){ for ( uint32_t i = 0; i < n; ++i ) kill( "DescriptorSet", s[i] ); return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL UpdateDescriptorSets( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * )
	{
		for ( uint32_t i = 0; i < n; ++i )
		{
			Ev e; e.fn = "update"; e.a = uint64_t( w[i].dstSet ); e.b = w[i].dstBinding; e.n = { uint32_t( w[i].descriptorType ), w[i].descriptorCount };
			if ( w[i].pImageInfo ) { e.h.push_back( uint64_t( w[i].pImageInfo->imageView ) ); e.l1 = w[i].pImageInfo->imageLayout; }
			if ( w[i].pBufferInfo ) e.h = { uint64_t( w[i].pBufferInfo->buffer ), w[i].pBufferInfo->offset, w[i].pBufferInfo->range };
			if ( w[i].pTexelBufferView ) e.h.push_back( uint64_t( *w[i].pTexelBufferView ) );
			R.ev.push_back( e );
		}
	}
	inline VKAPI_ATTR void VKAPI_CALL GetBufferMemoryRequirements( VkDevice, VkBuffer, VkMemoryRequirements * r ){ *r = { 65536, 16, 0xFF }; }
	inline VKAPI_ATTR void VKAPI_CALL GetImageMemoryRequirements( VkDevice, VkImage, VkMemoryRequirements * r ){ *r = { 65536, 16, 0xFF }; }
	inline VKAPI_ATTR VkResult VKAPI_CALL AllocateMemory( VkDevice, VkMemoryAllocateInfo const *, A, VkDeviceMemory * out ){ bool ok; *out = make< VkDeviceMemory >( "Memory", ok ); return ok ? VK_SUCCESS : VK_ERROR_OUT_OF_DEVICE_MEMORY; }
	inline VKAPI_ATTR void VKAPI_CALL FreeMemory( VkDevice, VkDeviceMemory h, A ){ kill( "Memory", h ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL BindBufferMemory( VkDevice, VkBuffer, VkDeviceMemory, VkDeviceSize ){ bool ok; make< uint64_t >( "Bind", ok ); return ok ? VK_SUCCESS : VK_ERROR_OUT_OF_DEVICE_MEMORY; }
	inline VKAPI_ATTR VkResult VKAPI_CALL BindImageMemory( VkDevice, VkImage, VkDeviceMemory, VkDeviceSize ){ bool ok; make< uint64_t >( "Bind", ok ); return ok ? VK_SUCCESS : VK_ERROR_OUT_OF_DEVICE_MEMORY; }
	inline char mapped[65536];
	inline VKAPI_ATTR VkResult VKAPI_CALL MapMemory( VkDevice, VkDeviceMemory, VkDeviceSize, VkDeviceSize, VkMemoryMapFlags, void ** p ){ *p = mapped; return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL UnmapMemory( VkDevice, VkDeviceMemory ){}
	inline VKAPI_ATTR VkResult VKAPI_CALL FlushMappedMemoryRanges( VkDevice, uint32_t, VkMappedMemoryRange const * ){ return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL AllocateCommandBuffers( VkDevice, VkCommandBufferAllocateInfo const * ai, VkCommandBuffer * out )
	{ for ( uint32_t i = 0; i < ai->commandBufferCount; ++i ) { bool ok; out[i] = make< VkCommandBuffer >( "CommandBuffer", ok ); if ( !ok ) return VK_ERROR_OUT_OF_DEVICE_MEMORY; } return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL FreeCommandBuffers( VkDevice, VkCommandPool, uint32_t n, VkCommandBuffer const * c ){ for ( uint32_t i = 0; i < n; ++i ) kill( "CommandBuffer", c[i] ); }
	inline void simple( char const * fn, uint64_t a, uint64_t b ){ Ev e; e.fn = fn; e.a = a; e.b = b; R.ev.push_back( e ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL BeginCommandBuffer( VkCommandBuffer c, VkCommandBufferBeginInfo const * ){ simple( "cbbegin", uint64_t( c ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL EndCommandBuffer( VkCommandBuffer c ){ simple( "cbend", uint64_t( c ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL ResetCommandBuffer( VkCommandBuffer c, VkCommandBufferResetFlags ){ simple( "cbreset", uint64_t( c ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL QueueSubmit( VkQueue, uint32_t n, VkSubmitInfo const * s, VkFence f )
	{
		for ( uint32_t i = 0; i < n; ++i )
		{
			R.lastWaits.assign( s[i].pWaitSemaphores, s[i].pWaitSemaphores + s[i].waitSemaphoreCount );
			R.lastStages.assign( s[i].pWaitDstStageMask, s[i].pWaitDstStageMask + s[i].waitSemaphoreCount );
			R.lastSignals.assign( s[i].pSignalSemaphores, s[i].pSignalSemaphores + s[i].signalSemaphoreCount );
		}
		simple( "submit", uint64_t( f ) );
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL GetQueryPoolResults( VkDevice, VkQueryPool, uint32_t first, uint32_t count, size_t, void * data, VkDeviceSize stride, VkQueryResultFlags f )
	{
		simple( "queryresults", first, count );
		for ( uint32_t i = 0; i < count; ++i )
		{
			uint64_t v = first + i < R.queryValues.size() ? R.queryValues[first + i] : 0;
			if ( f & VK_QUERY_RESULT_64_BIT ) memcpy( ( char * )data + i * stride, &v, 8 );
			else { auto w = uint32_t( v ); memcpy( ( char * )data + i * stride, &w, 4 ); }
		}
		return VK_SUCCESS;
	}
	inline VKAPI_ATTR VkResult VKAPI_CALL ResetEvent( VkDevice, VkEvent ){ return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL SetEvent( VkDevice, VkEvent ){ return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL GetEventStatus( VkDevice, VkEvent ){ return VK_EVENT_SET; }
	inline VKAPI_ATTR VkResult VKAPI_CALL GetFenceStatus( VkDevice, VkFence ){ return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL WaitForFences( VkDevice, uint32_t, VkFence const * f, VkBool32, uint64_t t ){ simple( "wait", uint64_t( f[0] ), t ); return VK_SUCCESS; }
	inline VKAPI_ATTR VkResult VKAPI_CALL ResetFences( VkDevice, uint32_t, VkFence const * f ){ simple( "fencereset", uint64_t( f[0] ) ); return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL CmdBindPipeline( VkCommandBuffer, VkPipelineBindPoint p, VkPipeline h ){ simple( "bindpipe", uint64_t( h ), uint64_t( p ) ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdBindDescriptorSets( VkCommandBuffer, VkPipelineBindPoint p, VkPipelineLayout, uint32_t, uint32_t n, VkDescriptorSet const * s, uint32_t, uint32_t const * )
	{ Ev e; e.fn = "bindsets"; e.b = p; for ( uint32_t i = 0; i < n; ++i ) e.h.push_back( uint64_t( s[i] ) ); R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdBindVertexBuffers( VkCommandBuffer, uint32_t, uint32_t n, VkBuffer const * b, VkDeviceSize const * o )
	{ Ev e; e.fn = "bindvb"; for ( uint32_t i = 0; i < n; ++i ) { e.h.push_back( uint64_t( b[i] ) ); e.h.push_back( o[i] ); } R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdBindIndexBuffer( VkCommandBuffer, VkBuffer b, VkDeviceSize o, VkIndexType t ){ Ev e; e.fn = "bindib"; e.a = uint64_t( b ); e.b = o; e.n = { uint32_t( t ) }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdClearColorImage( VkCommandBuffer, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{ for ( uint32_t k = 0; k < n; ++k ) { Ev e; e.fn = "clear"; e.a = uint64_t( i ); e.l1 = l; e.range = r[k]; e.clears.resize( 1 ); e.clears[0].color = *v; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdClearDepthStencilImage( VkCommandBuffer, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{ for ( uint32_t k = 0; k < n; ++k ) { Ev e; e.fn = "clear"; e.a = uint64_t( i ); e.l1 = l; e.range = r[k]; e.clears.resize( 1 ); e.clears[0].depthStencil = *v; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdDispatch( VkCommandBuffer, uint32_t x, uint32_t y, uint32_t z ){ Ev e; e.fn = "dispatch"; e.n = { x, y, z }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdDispatchIndirect( VkCommandBuffer, VkBuffer b, VkDeviceSize o ){ simple( "dispatchindirect", uint64_t( b ), o ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdDraw( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t c, uint32_t d ){ Ev e; e.fn = "draw"; e.n = { a, b, c, d }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdDrawIndexed( VkCommandBuffer, uint32_t a, uint32_t b, uint32_t c, int32_t d, uint32_t f ){ Ev e; e.fn = "drawindexed"; e.n = { a, b, c, uint32_t( d ), f }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdDrawIndexedIndirect( VkCommandBuffer, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ Ev e; e.fn = "drawindexedindirect"; e.a = uint64_t( b ); e.b = o; e.n = { n, s }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdDrawIndirect( VkCommandBuffer, VkBuffer b, VkDeviceSize o, uint32_t n, uint32_t s ){ Ev e; e.fn = "drawindirect"; e.a = uint64_t( b ); e.b = o; e.n = { n, s }; R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdBeginRenderPass( VkCommandBuffer, VkRenderPassBeginInfo const * i, VkSubpassContents )
	{ Ev e; e.fn = "begin"; e.a = uint64_t( i->renderPass ); e.b = uint64_t( i->framebuffer ); e.area = i->renderArea; e.clears.assign( i->pClearValues, i->pClearValues + i->clearValueCount ); R.ev.push_back( e ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdEndRenderPass( VkCommandBuffer ){ simple( "end" ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdPushConstants( VkCommandBuffer, VkPipelineLayout, VkShaderStageFlags, uint32_t o, uint32_t n, void const * ){ simple( "push", o, n ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdResetQueryPool( VkCommandBuffer, VkQueryPool, uint32_t f, uint32_t n ){ simple( "resetquery", f, n ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdWriteTimestamp( VkCommandBuffer, VkPipelineStageFlagBits, VkQueryPool, uint32_t q ){ simple( "timestamp", q ); }
	inline VKAPI_ATTR void VKAPI_CALL CmdPipelineBarrier( VkCommandBuffer, VkPipelineStageFlags s, VkPipelineStageFlags d, VkDependencyFlags, uint32_t, VkMemoryBarrier const *, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * im )
	{
		for ( uint32_t i = 0; i < nb; ++i ) { Ev e; e.fn = "bufbarrier"; e.buf = b[i]; e.src = s; e.dst = d; e.a = uint64_t( b[i].buffer ); R.ev.push_back( e ); }
		for ( uint32_t i = 0; i < ni; ++i ) { Ev e; e.fn = "barrier"; e.img = im[i]; e.src = s; e.dst = d; e.a = uint64_t( im[i].image ); e.range = im[i].subresourceRange; e.l1 = im[i].oldLayout; e.l2 = im[i].newLayout; R.ev.push_back( e ); }
	}
	inline VKAPI_ATTR void VKAPI_CALL CmdBlitImage( VkCommandBuffer, VkImage s, VkImageLayout ls, VkImage d, VkImageLayout ld, uint32_t n, VkImageBlit const * r, VkFilter )
	{ for ( uint32_t i = 0; i < n; ++i ) { Ev e; e.fn = "blit"; e.a = uint64_t( s ); e.b = uint64_t( d ); e.l1 = ls; e.l2 = ld; e.iblit = r[i]; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdCopyBuffer( VkCommandBuffer, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r )
	{ for ( uint32_t i = 0; i < n; ++i ) { Ev e; e.fn = "bcopy"; e.a = uint64_t( s ); e.b = uint64_t( d ); e.bcopy = r[i]; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdCopyBufferToImage( VkCommandBuffer, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r )
	{ for ( uint32_t i = 0; i < n; ++i ) { Ev e; e.fn = "b2i"; e.a = uint64_t( s ); e.b = uint64_t( d ); e.l1 = l; e.bicopy = r[i]; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdCopyImageToBuffer( VkCommandBuffer, VkImage s, VkImageLayout l, VkBuffer d, uint32_t n, VkBufferImageCopy const * r )
	{ for ( uint32_t i = 0; i < n; ++i ) { Ev e; e.fn = "i2b"; e.a = uint64_t( s ); e.b = uint64_t( d ); e.l1 = l; e.bicopy = r[i]; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdCopyImage( VkCommandBuffer, VkImage s, VkImageLayout ls, VkImage d, VkImageLayout ld, uint32_t n, VkImageCopy const * r )
	{ for ( uint32_t i = 0; i < n; ++i ) { Ev e; e.fn = "copy"; e.a = uint64_t( s ); e.b = uint64_t( d ); e.l1 = ls; e.l2 = ld; e.icopy = r[i]; R.ev.push_back( e ); } }
	inline VKAPI_ATTR void VKAPI_CALL CmdExecuteCommands( VkCommandBuffer, uint32_t, VkCommandBuffer const * ){}
	inline VKAPI_ATTR void VKAPI_CALL CmdResetEvent( VkCommandBuffer, VkEvent, VkPipelineStageFlags ){}
	inline VKAPI_ATTR void VKAPI_CALL CmdSetEvent( VkCommandBuffer, VkEvent, VkPipelineStageFlags ){}
	inline VKAPI_ATTR void VKAPI_CALL CmdWaitEvents( VkCommandBuffer, uint32_t, VkEvent const *, VkPipelineStageFlags, VkPipelineStageFlags, uint32_t, VkMemoryBarrier const *, uint32_t, VkBufferMemoryBarrier const *, uint32_t, VkImageMemoryBarrier const * ){}
	inline VKAPI_ATTR void VKAPI_CALL CmdFillBuffer( VkCommandBuffer, VkBuffer b, VkDeviceSize o, VkDeviceSize n, uint32_t d ){ Ev e; e.fn = "fill"; e.a = uint64_t( b ); e.h = { o, n, d }; R.ev.push_back( e ); }
	inline VKAPI_ATTR VkResult VKAPI_CALL SetDebugUtilsObjectNameEXT( VkDevice, VkDebugUtilsObjectNameInfoEXT const * ){ return VK_SUCCESS; }
	inline VKAPI_ATTR void VKAPI_CALL CmdBeginDebugUtilsLabelEXT( VkCommandBuffer, VkDebugUtilsLabelEXT const * l ){ simple( "label" ); R.ev.back().text = l->pLabelName; }
	inline VKAPI_ATTR void VKAPI_CALL CmdEndDebugUtilsLabelEXT( VkCommandBuffer ){ simple( "endlabel" ); }

	inline PFN_vkVoidFunction VKAPI_CALL getProc( VkDevice, char const * name )
	{
#define REC_P( n ) if ( !strcmp( name, "vk" #n ) ) return reinterpret_cast< PFN_vkVoidFunction >( &n );
#define REC_CD( n ) REC_P( Create##n ) REC_P( Destroy##n )
		REC_CD( Buffer ) REC_CD( Image ) REC_CD( ImageView ) REC_CD( Sampler ) REC_CD( PipelineLayout ) REC_CD( DescriptorSetLayout ) REC_CD( DescriptorPool )
		REC_CD( RenderPass ) REC_CD( Framebuffer ) REC_CD( CommandPool ) REC_CD( Semaphore ) REC_CD( QueryPool ) REC_CD( Event ) REC_CD( Fence )
		REC_P( CreateGraphicsPipelines ) REC_P( CreateComputePipelines ) REC_P( DestroyPipeline ) REC_P( AllocateDescriptorSets ) REC_P( FreeDescriptorSets ) REC_P( UpdateDescriptorSets )
		REC_P( GetBufferMemoryRequirements ) REC_P( GetImageMemoryRequirements ) REC_P( AllocateMemory ) REC_P( FreeMemory ) REC_P( BindBufferMemory ) REC_P( BindImageMemory )
		REC_P( MapMemory ) REC_P( UnmapMemory ) REC_P( FlushMappedMemoryRanges ) REC_P( AllocateCommandBuffers ) REC_P( FreeCommandBuffers ) REC_P( BeginCommandBuffer ) REC_P( EndCommandBuffer )
		REC_P( ResetCommandBuffer ) REC_P( QueueSubmit ) REC_P( GetQueryPoolResults ) REC_P( ResetEvent ) REC_P( SetEvent ) REC_P( GetEventStatus ) REC_P( GetFenceStatus ) REC_P( WaitForFences ) REC_P( ResetFences )
		REC_P( CmdBindPipeline ) REC_P( CmdBindDescriptorSets ) REC_P( CmdBindVertexBuffers ) REC_P( CmdBindIndexBuffer ) REC_P( CmdClearColorImage ) REC_P( CmdClearDepthStencilImage )
		REC_P( CmdDispatch ) REC_P( CmdDispatchIndirect ) REC_P( CmdDraw ) REC_P( CmdDrawIndexed ) REC_P( CmdDrawIndexedIndirect ) REC_P( CmdDrawIndirect ) REC_P( CmdBeginRenderPass ) REC_P( CmdEndRenderPass )
		REC_P( CmdPushConstants ) REC_P( CmdResetQueryPool ) REC_P( CmdWriteTimestamp ) REC_P( CmdPipelineBarrier ) REC_P( CmdBlitImage ) REC_P( CmdCopyBuffer ) REC_P( CmdCopyBufferToImage ) REC_P( CmdCopyImage ) REC_P( CmdCopyImageToBuffer )
		REC_P( CmdExecuteCommands ) REC_P( CmdResetEvent ) REC_P( CmdSetEvent ) REC_P( CmdWaitEvents ) REC_P( CmdFillBuffer ) REC_P( SetDebugUtilsObjectNameEXT ) REC_P( CmdBeginDebugUtilsLabelEXT ) REC_P( CmdEndDebugUtilsLabelEXT )
		return nullptr;
	}

	inline void quiet()
	{
		auto no = []( std::string const &, bool ){};
		crg::Logger::setTraceCallback( no ); crg::Logger::setDebugCallback( no ); crg::Logger::setInfoCallback( no ); crg::Logger::setWarningCallback( no ); crg::Logger::setErrorCallback( no );
	}
	inline VkPhysicalDeviceProperties props()
	{
		VkPhysicalDeviceProperties p{};
		p.limits.timestampPeriod = 1.0f;
		p.limits.nonCoherentAtomSize = 64;
		return p;
	}
	inline VkPhysicalDeviceMemoryProperties memProps()
	{
		VkPhysicalDeviceMemoryProperties p{};
		p.memoryTypeCount = 2;
		p.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, 0 };
		p.memoryTypes[1] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 0 };
		p.memoryHeapCount = 1;
		p.memoryHeaps[0] = { 1u << 30, VK_MEMORY_HEAP_DEVICE_LOCAL_BIT };
		return p;
	}
	inline crg::GraphContext context( bool sepDS = false ) { return crg::GraphContext{ VkDevice( 0x11 ), VkPipelineCache{}, nullptr, memProps(), props(), sepDS, &getProc }; }
	inline crg::ImageData image( std::string name, VkFormat f, uint32_t w, uint32_t h, uint32_t mips = 1, uint32_t layers = 1, VkImageType t = VK_IMAGE_TYPE_2D, uint32_t depth = 1 )
	{
		return crg::ImageData{ std::move( name ), 0u, t, f, { w, h, depth }
			, VkImageUsageFlags( VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | ( f == VK_FORMAT_D32_SFLOAT || f == VK_FORMAT_D24_UNORM_S8_UINT ? VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT : VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT | VK_IMAGE_USAGE_STORAGE_BIT ) )
			, mips, layers };
	}
	inline crg::ImageViewData view( std::string name, crg::ImageId img, uint32_t mip = 0, uint32_t mips = 1, uint32_t layer = 0, uint32_t layers = 1, VkImageAspectFlags aspect = 0, VkImageViewType t = VK_IMAGE_VIEW_TYPE_MAX_ENUM )
	{
		auto f = img.data->info.format;
		if ( !aspect ) aspect = f == VK_FORMAT_D32_SFLOAT ? VK_IMAGE_ASPECT_DEPTH_BIT : f == VK_FORMAT_D24_UNORM_S8_UINT ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
		if ( t == VK_IMAGE_VIEW_TYPE_MAX_ENUM ) t = img.data->info.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : layers > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
		return crg::ImageViewData{ std::move( name ), img, 0u, t, f, { aspect, mip, mips, layer, layers } };
	}
	// Creator of a pass which only notes its execution, as event "user" with its name.
	struct Opt
	{
		bool compute{ true };
		bool const * enabled{};
		uint32_t const * index{};
		crg::ru::Config cfg{};
	};
	inline crg::RunnablePassCreator user( Opt o = {} )
	{
		return [o]( crg::FramePass const & p, crg::GraphContext & c, crg::RunnableGraph & g ) -> crg::RunnablePassPtr
		{
			auto name = p.getName();
			return std::make_unique< crg::RunnablePass >( p, c, g
				, crg::RunnablePass::Callbacks{ crg::RunnablePass::InitialiseCallback{ []( uint32_t ){} }
					, crg::RunnablePass::GetPipelineStateCallback( [o](){ return crg::PipelineState{ o.compute ? VkAccessFlags( VK_ACCESS_SHADER_READ_BIT ) : VkAccessFlags( VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT ), o.compute ? VkPipelineStageFlags( VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) : VkPipelineStageFlags( VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) }; } )
					, crg::RunnablePass::RecordCallback( [name]( crg::RecordContext &, VkCommandBuffer, uint32_t i ){ simple( "user", i ); R.ev.back().text = name; } )
					, crg::RunnablePass::GetPassIndexCallback( [o](){ return o.index ? *o.index : 0u; } )
					, crg::RunnablePass::IsEnabledCallback( [o](){ return o.enabled ? *o.enabled : true; } )
					, crg::RunnablePass::IsComputePassCallback( [o](){ return o.compute; } ) }
				, o.cfg );
		};
	}
	inline int fails = 0;
	inline void check( bool ok, std::string const & what )
	{
		if ( !ok ) { ++fails; printf( "FAILED: %s\n", what.c_str() ); }
	}
	inline int done( char const * what )
	{
		printf( "%s: %s\n", what, fails ? "BROKEN" : "ok" );
		return fails ? 1 : 0;
	}
}
