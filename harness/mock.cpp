#include "mock.hpp"
#include "heap.hpp"
#include "valid.hpp"
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <sstream>

namespace mon
{
	thread_local Driver * g_drv{};

	char const * typeName( T t )
	{
		static char const * n[]{ "None", "Buffer", "Image", "ImageView", "BufferView", "Memory", "Sampler", "Pipeline", "PipelineLayout"
			, "DescriptorSetLayout", "DescriptorPool", "DescriptorSet", "RenderPass", "Framebuffer", "CommandPool", "CommandBuffer"
			, "Semaphore", "Fence", "Event", "QueryPool", "ShaderModule", "Count" };
		return n[int( t )];
	}

	char const * opName( Op op )
	{
		static char const * n[]{ "Barrier", "ClearColor", "ClearDS", "BeginRP", "EndRP", "BindPipe", "BindSets", "BindVB", "BindIB", "Draw"
			, "DrawIndexed", "DrawIndirect", "DrawIndexedIndirect", "Dispatch", "DispatchIndirect", "Push", "ResetQuery", "WriteTS", "Blit"
			, "CopyBuf", "CopyB2I", "CopyImg", "CopyI2B", "FillBuf", "LabelBegin", "LabelEnd", "Marker", "Other" };
		return n[int( op )];
	}

	char const * layoutName( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_UNDEFINED: return "UNDEFINED";
		case VK_IMAGE_LAYOUT_GENERAL: return "GENERAL";
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return "COLOR_ATTACHMENT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: return "DS_ATTACHMENT";
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL: return "DS_READ_ONLY";
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return "SHADER_READ_ONLY";
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return "TRANSFER_SRC";
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return "TRANSFER_DST";
		case VK_IMAGE_LAYOUT_PREINITIALIZED: return "PREINITIALIZED";
		case VK_IMAGE_LAYOUT_PRESENT_SRC_KHR: return "PRESENT_SRC";
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: return "DEPTH_ATTACHMENT";
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL: return "DEPTH_READ_ONLY";
		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL: return "STENCIL_ATTACHMENT";
		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL: return "STENCIL_READ_ONLY";
		default: return "OTHER";
		}
	}

	bool isDepthFmt( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_D16_UNORM: case VK_FORMAT_X8_D24_UNORM_PACK32: case VK_FORMAT_D32_SFLOAT:
		case VK_FORMAT_D16_UNORM_S8_UINT: case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT:
			return true;
		default: return false;
		}
	}

	bool isStencilFmt( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_S8_UINT:
		case VK_FORMAT_D16_UNORM_S8_UINT: case VK_FORMAT_D24_UNORM_S8_UINT: case VK_FORMAT_D32_SFLOAT_S8_UINT:
			return true;
		default: return false;
		}
	}

	uint64_t mix( uint64_t a, uint64_t b )
	{
		uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15ULL;
		x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ULL;
		x ^= x >> 27; x *= 0x94D049BB133111EBULL;
		x ^= x >> 31;
		return x ? x : 1;
	}

	uint64_t clearToken( bool colour, VkClearValue const & v, uint32_t aspectIdx )
	{
		if ( colour )
		{
			return mix( mix( mix( v.color.uint32[0], v.color.uint32[1] ), v.color.uint32[2] ), mix( v.color.uint32[3], 0xC1EA5 ) );
		}

		if ( aspectIdx == 0 )
		{
			uint32_t d;
			memcpy( &d, &v.depthStencil.depth, 4 );
			return mix( d, 0xDEB74 );
		}

		return mix( v.depthStencil.stencil, 0x57E9C11 );
	}

	uint64_t fillToken( uint32_t data )
	{
		return mix( data, 0xF111 );
	}

	static VkPipelineStageFlags const AllStages = 0x3FFFF & ~( VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
		| VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT );
	static std::vector< VkPipelineStageFlags > const GfxOrder{ VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT
		, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT, VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT
		, VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT
		, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT };

	static VkPipelineStageFlags plainStages( VkPipelineStageFlags s )
	{
		if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT )
			return AllStages;
		VkPipelineStageFlags r = s & AllStages;
		if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT )
			for ( auto g : GfxOrder ) r |= g;
		return r;
	}

	VkPipelineStageFlags expandSrc( VkPipelineStageFlags s )
	{
		if ( s & ( VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) )
			return AllStages | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		auto r = plainStages( s );
		bool seen = false;
		for ( size_t i = GfxOrder.size(); i-- > 0; )
		{
			if ( r & GfxOrder[i] ) seen = true;
			if ( seen ) r |= GfxOrder[i];
		}
		if ( r & VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT ) r |= VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT;
		return r;
	}

	VkPipelineStageFlags expandDst( VkPipelineStageFlags s )
	{
		// the bottom of the pipe comes after every stage, hence is part of every destination scope
		if ( s & ( VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT ) )
			return AllStages | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		auto r = plainStages( s ) | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;
		bool seen = false;
		for ( size_t i = 0; i < GfxOrder.size(); ++i )
		{
			if ( r & GfxOrder[i] ) seen = true;
			if ( seen ) r |= GfxOrder[i];
		}
		if ( r & VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT ) r |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
		return r;
	}

	Driver::Driver()
	{
		g_drv = this;
		memProps.memoryTypeCount = 3;
		memProps.memoryTypes[0] = { VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, 0 };
		memProps.memoryTypes[1] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT, 0 };
		memProps.memoryTypes[2] = { VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, 0 };
		memProps.memoryHeapCount = 1;
		memProps.memoryHeaps[0] = { 1ULL << 32, VK_MEMORY_HEAP_DEVICE_LOCAL_BIT };
		props.limits.timestampPeriod = 1.0f;
		props.limits.maxColorAttachments = 8;
	}

	Driver::~Driver()
	{
		if ( g_drv == this )
			g_drv = nullptr;
	}

	void Driver::viol( std::string cat, std::string sig, std::string msg )
	{
		for ( auto & v : viols )
			if ( v.cat == cat && v.sig == sig )
				return;
		if ( context )
			msg += " [" + context() + "]";
		viols.push_back( { std::move( cat ), std::move( sig ), std::move( msg ) } );
	}

	std::string Driver::describe( uint64_t h )
	{
		auto it = objs.find( h );
		if ( it == objs.end() )
			return "unknown#" + std::to_string( h );
		auto n = debugNames.find( h );
		return std::string( typeName( it->second->type ) ) + "#" + std::to_string( it->second->seq )
			+ ( it->second->name.empty() ? std::string{} : "(" + it->second->name + ")" )
			+ ( n == debugNames.end() ? std::string{} : "\"" + n->second + "\"" );
	}

	Obj * Driver::get( uint64_t h, T t )
	{
		auto it = objs.find( h );
		if ( it == objs.end() || it->second->type != t )
			return nullptr;
		return it->second.get();
	}

	Obj & Driver::create( T t )
	{
		uint64_t h;
		++nextHandle;
		auto v = hcfg.descending ? 0x4000000u - nextHandle : nextHandle;
		h = hcfg.highBits && t != T::CmdBuf ? ( v << 32 ) | 0x40u : ( v << 4 ) + hcfg.base;
		auto o = std::make_unique< Obj >();
		o->type = t;
		o->h = h;
		o->alive = true;
		o->seq = ++seq;
		auto & r = *o;
		if ( logStream ) stream.push_back( std::string( "create " ) + typeName( t ) + ( logKinds ? std::string{} : "#" + std::to_string( r.seq ) ) );
		objs[h] = std::move( o );
		order.push_back( h );
		return r;
	}

	bool Driver::fail( char const * call )
	{
		++calls[call];
		++fallible;
		if ( ( failAt >= 0 && fallible == failAt ) || ( failSubmit && !strcmp( call, "vkQueueSubmit" ) ) )
		{
			if ( firstFailed.empty() ) firstFailed = call;
			failedCall = call;
			return true;
		}
		return false;
	}

	void Driver::destroy( uint64_t h, T t, char const * call )
	{
		++calls[call];
		if ( logStream ) stream.push_back( std::string( call ) + " " + rank( h ) );
		if ( !h )
			return;
		auto o = get( h, t );
		if ( !o )
		{
			viol( "lifetime", std::string( "destroy-unknown-" ) + typeName( t ), std::string( call ) + " on a handle which is no " + typeName( t ) + ": " + describe( h ) );
			return;
		}
		if ( !o->alive )
		{
			viol( "lifetime", std::string( "double-destroy-" ) + typeName( t ), std::string( call ) + " on already destroyed " + describe( h ) );
			return;
		}
		if ( o->external )
		{
			viol( "lifetime", std::string( "destroy-foreign-" ) + typeName( t ), std::string( call ) + " on application-owned " + describe( h ) );
			return;
		}
		for ( auto & s : submits )
			if ( !s.done && s.objs.count( h ) )
				viol( "inflight", std::string( "destroy-inuse-" ) + typeName( t ), std::string( call ) + " on " + describe( h ) + " used by pending submission " + std::to_string( s.id ) );
		// children must not outlive
		auto childCheck = [&]( T ct, char const * what )
		{
			for ( auto & [ch, c] : objs )
				if ( c->alive && c->type == ct && c->parent == h )
					viol( "lifetime", std::string( "orphan-" ) + typeName( ct ), std::string( call ) + " on " + describe( h ) + " while " + what + " " + describe( ch ) + " still exists" );
		};
		if ( t == T::Image ) childCheck( T::ImageView, "its view" );
		if ( t == T::Buffer ) childCheck( T::BufferView, "its view" );
		if ( t == T::CmdPool || t == T::DPool )
		{
			for ( auto & [ch, c] : objs )
				if ( c->alive && c->parent == h && ( c->type == T::CmdBuf || c->type == T::DSet ) )
				{
					for ( auto & s : submits )
						if ( !s.done && s.objs.count( ch ) )
							viol( "inflight", std::string( "destroy-inuse-" ) + typeName( c->type ), std::string( call ) + " frees " + describe( ch ) + " used by pending submission" );
					unlisted( ch, c->type );
					c->alive = false;
				}
		}
		if ( t == T::ImageView )
		{
			for ( auto & [ch, c] : objs )
				if ( c->alive && c->type == T::Framebuffer )
					for ( auto v : c->fbViews )
						if ( ( uint64_t )v == h )
							viol( "lifetime", "orphan-Framebuffer", std::string( call ) + " on " + describe( h ) + " while " + describe( ch ) + " still references it" );
		}
		unlisted( h, t );
		o->alive = false;
		if ( logCalls )
			callLog.push_back( std::string( call ) );
	}

	VkBuffer Driver::makeBuffer( VkDeviceSize size, std::string name )
	{
		auto & o = create( T::Buffer );
		o.external = true;
		o.name = std::move( name );
		o.bufCI.size = size;
		o.bufCI.usage = 0x1FF;
		o.granContent.assign( size_t( ( size + Granule - 1 ) / Granule ), 0 );
		o.granSync.resize( o.granContent.size() );
		return ( VkBuffer )o.h;
	}

	VkBufferView Driver::makeBufferView( VkBuffer buffer )
	{
		auto & o = create( T::BufferView );
		o.external = true;
		o.parent = ( uint64_t )buffer;
		return ( VkBufferView )o.h;
	}

	VkDescriptorSetLayout Driver::makeSetLayout()
	{
		auto & o = create( T::DSLayout );
		o.external = true;
		return ( VkDescriptorSetLayout )o.h;
	}

	VkShaderModule Driver::makeShader( std::string name )
	{
		auto & o = create( T::ShaderModule );
		o.external = true;
		o.name = std::move( name );
		return ( VkShaderModule )o.h;
	}

	VkSemaphore Driver::makeSemaphore( bool signaled )
	{
		auto & o = create( T::Semaphore );
		o.external = true;
		o.signaled = signaled;
		return ( VkSemaphore )o.h;
	}

	void Driver::destroyExternal( uint64_t h )
	{
		auto it = objs.find( h );
		if ( it != objs.end() )
			it->second->alive = false;
	}

	void Driver::marker( VkCommandBuffer cb, int kind, int pass, int index, int extra )
	{
		++anyMarkerSeen;
		auto o = find( cb, T::CmdBuf );
		if ( !o )
		{
			viol( "struct", "callback-no-cmdbuf", "A pass callback was given no valid command buffer" );
			return;
		}
		if ( o->cbState != 1 )
			viol( "struct", "callback-cmdbuf-not-recording", "A pass callback was given " + describe( o->h ) + " which is not being recorded" );
		Cmd c;
		c.op = Op::Marker;
		c.mkind = kind;
		c.mpass = pass;
		c.mindex = index;
		c.mextra = extra;
		o->cmds.push_back( std::move( c ) );
	}

	std::string Driver::rank( uint64_t h )
	{
		auto it = objs.find( h );
		if ( it == objs.end() ) return h ? "?" : "-";
		auto & o = *it->second;
		// what is recreated in a run has no lasting identity
		if ( logKinds && o.type != T::Image && o.type != T::ImageView && o.type != T::Buffer ) return typeName( o.type );
		return std::string( typeName( o.type ) ) + "#" + std::to_string( o.seq );
	}

	void Driver::logCmds( Obj & cb )
	{
		auto u = []( uint64_t v ){ return " " + std::to_string( v ); };
		auto range = [&]( VkImageSubresourceRange const & r ){ return u( r.aspectMask ) + ":" + std::to_string( r.baseMipLevel ) + "+" + std::to_string( r.levelCount ) + ":" + std::to_string( r.baseArrayLayer ) + "+" + std::to_string( r.layerCount ); };
		auto layers = [&]( VkImageSubresourceLayers const & r ){ return u( r.aspectMask ) + ":" + std::to_string( r.mipLevel ) + ":" + std::to_string( r.baseArrayLayer ) + "+" + std::to_string( r.layerCount ); };
		auto off = [&]( VkOffset3D const & o ){ return " (" + std::to_string( o.x ) + "," + std::to_string( o.y ) + "," + std::to_string( o.z ) + ")"; };
		auto ext = [&]( VkExtent3D const & o ){ return " [" + std::to_string( o.width ) + "x" + std::to_string( o.height ) + "x" + std::to_string( o.depth ) + "]"; };
		stream.push_back( "commands of " + rank( cb.h ) );
		for ( auto & c : cb.cmds )
		{
			std::string l = std::string( "  " ) + opName( c.op ) + " " + rank( c.a ) + " " + rank( c.b ) + u( c.src ) + u( c.dst ) + u( c.la ) + u( c.lb ) + u( c.filter ) + u( uint64_t( c.bindPoint ) ) + " " + c.text;
			if ( c.op == Op::Marker ) l += u( uint64_t( c.mkind ) ) + u( uint64_t( c.mpass ) ) + u( uint64_t( c.mindex ) ) + u( uint64_t( c.mextra ) );
			for ( auto & b : c.imgB ) l += " img " + rank( ( uint64_t )b.image ) + u( b.srcAccessMask ) + u( b.dstAccessMask ) + u( b.oldLayout ) + u( b.newLayout ) + range( b.subresourceRange );
			for ( auto & b : c.bufB ) l += " buf " + rank( ( uint64_t )b.buffer ) + u( b.srcAccessMask ) + u( b.dstAccessMask ) + u( b.offset ) + u( b.size );
			for ( auto & b : c.memB ) l += " mem" + u( b.srcAccessMask ) + u( b.dstAccessMask );
			for ( auto & r : c.ranges ) l += range( r );
			if ( c.op == Op::ClearColor ) for ( auto x : c.clears[0].color.uint32 ) l += u( x );
			if ( c.op == Op::ClearDS ) l += u( uint64_t( c.clears[0].depthStencil.depth * 1000 ) ) + u( c.clears[0].depthStencil.stencil );
			for ( auto & r : c.icopies ) l += layers( r.srcSubresource ) + layers( r.dstSubresource ) + off( r.srcOffset ) + off( r.dstOffset ) + ext( r.extent );
			for ( auto & r : c.blits ) l += layers( r.srcSubresource ) + layers( r.dstSubresource ) + off( r.srcOffsets[0] ) + off( r.srcOffsets[1] ) + off( r.dstOffsets[0] ) + off( r.dstOffsets[1] );
			for ( auto & r : c.bcopies ) l += u( r.srcOffset ) + u( r.dstOffset ) + u( r.size );
			for ( auto & r : c.bicopies ) l += u( r.bufferOffset ) + u( r.bufferRowLength ) + u( r.bufferImageHeight ) + layers( r.imageSubresource ) + off( r.imageOffset ) + ext( r.imageExtent );
			l += u( c.area.extent.width ) + u( c.area.extent.height );
			for ( auto h : c.handles ) l += " " + rank( h );
			for ( auto o : c.offs ) l += u( o );
			for ( auto o : c.n ) l += u( o );
			stream.push_back( l );
		}
	}

	void Driver::completeAll()
	{
		for ( auto & s : submits )
			complete( s.id );
	}

	void Driver::complete( uint64_t upTo )
	{
		for ( auto & s : submits )
			if ( s.id <= upTo && !s.done )
			{
				s.done = true;
				if ( auto f = find( s.fence, T::Fence ) )
					f->signaled = true;
			}
	}

	void Driver::consumeSemaphore( VkSemaphore s )
	{
		if ( auto o = find( s, T::Semaphore ) )
			o->signaled = false;
	}

	uint32_t Driver::aspectCount( Obj const & img )const
	{
		return isDepthFmt( img.imgCI.format ) && isStencilFmt( img.imgCI.format ) ? 2u : 1u;
	}

	uint32_t Driver::layersOf( Obj const & img )const
	{
		return img.imgCI.imageType == VK_IMAGE_TYPE_3D ? 1u : img.imgCI.arrayLayers;
	}

	void Driver::forRange( Obj & img, VkImageSubresourceRange r, std::function< void( Sub &, uint32_t, uint32_t, uint32_t ) > const & f )
	{
		auto L = layersOf( img );
		auto M = img.imgCI.mipLevels;
		auto A = aspectCount( img );
		if ( r.layerCount == VK_REMAINING_ARRAY_LAYERS ) r.layerCount = L - std::min( L, r.baseArrayLayer );
		if ( r.levelCount == VK_REMAINING_MIP_LEVELS ) r.levelCount = M - std::min( M, r.baseMipLevel );
		for ( uint32_t a = 0; a < A; ++a )
		{
			VkImageAspectFlags bit = A == 2 ? ( a == 0 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT )
				: isDepthFmt( img.imgCI.format ) ? VK_IMAGE_ASPECT_DEPTH_BIT
				: isStencilFmt( img.imgCI.format ) ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
			if ( !( r.aspectMask & bit ) )
				continue;
			for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount && l < L; ++l )
				for ( uint32_t m = r.baseMipLevel; m < r.baseMipLevel + r.levelCount && m < M; ++m )
					f( img.subs[( a * L + l ) * M + m], a, l, m );
		}
	}

	VkImageSubresourceRange Driver::viewRange( Obj const & view )const
	{
		return view.viewCI.subresourceRange;
	}

	VkImageLayout Driver::normLayout( VkImageLayout l, uint32_t aspectIdx, bool hasDepth )const
	{
		bool depth = hasDepth && aspectIdx == 0;
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
			return depth ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
			return depth ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL;
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
			return depth ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL;
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
			return depth ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL;
		default:
			return l;
		}
	}

	static VkAccessFlags const WriteAccess = VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT
		| VK_ACCESS_TRANSFER_WRITE_BIT | VK_ACCESS_HOST_WRITE_BIT | VK_ACCESS_MEMORY_WRITE_BIT;

	void Driver::accessCell( SyncCell & s, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who, std::string const & what )
	{
		if ( !checkSync )
			return;
		stage = plainStages( stage );
		if ( s.written )
		{
			bool ordered = ( s.wChain & stage ) == stage || s.writer == who;
			if ( write )
			{
				if ( !ordered || ( !s.wAvailable && s.writer != who ) )
				{
					++hazardsSeen;
					viol( "sync", "waw:" + what, "write by " + who + " of " + what + " is not synchronised with the previous write by " + s.writer );
				}
			}
			else
			{
				bool vis = s.writer == who;
				for ( auto & [st, ac] : s.visible )
					if ( ( st & stage ) == stage && ( ( ac & access ) == access || ( ac & VK_ACCESS_MEMORY_READ_BIT ) ) )
						vis = true;
				if ( !ordered || !vis )
				{
					++hazardsSeen;
					viol( "sync", "raw:" + what, "read by " + who + " of " + what + " does not see the previous write by " + s.writer + " (write not made " + ( !ordered ? "ordered" : "visible" ) + ")" );
				}
			}
		}
		if ( write )
		{
			for ( auto & r : s.reads )
				if ( r.who != who && ( r.chain & stage ) != stage )
				{
					++hazardsSeen;
					viol( "sync", "war:" + what, "write by " + who + " of " + what + " may overtake the previous read by " + r.who );
				}
			s = SyncCell{};
			s.written = true;
			s.wStage = stage;
			s.wAccess = access & WriteAccess;
			s.writer = who;
		}
		else
		{
			if ( s.reads.empty() || s.reads.back().who != who || s.reads.back().chain || s.reads.back().stage != stage )
				s.reads.push_back( { stage, 0, who } );
		}
	}

	void Driver::accessImage( Sub & s, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who, std::string const & what )
	{
		accessCell( s.sync, stage, access, write, who, what );
	}

	void Driver::barrierCell( SyncCell & s, VkPipelineStageFlags src, VkAccessFlags srcA, VkPipelineStageFlags dst, VkAccessFlags dstA )
	{
		auto se = expandSrc( src ), de = expandDst( dst );
		auto sp = ( src & VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) && !( src & ~VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT ) ? 0u : plainStages( src );
		if ( s.written )
		{
			bool in = ( s.wStage & se ) || ( s.wChain & se );
			if ( in )
			{
				s.wChain |= de;
				if ( ( s.wStage & sp ) && ( ( srcA & s.wAccess ) || ( srcA & VK_ACCESS_MEMORY_WRITE_BIT ) ) )
					s.wAvailable = true;
				if ( s.wAvailable )
					s.visible.emplace_back( plainStages( dst ), dstA );
			}
		}
		for ( auto & r : s.reads )
			if ( ( r.stage & se ) == r.stage || ( r.chain & se ) )
				r.chain |= de;
	}

	// A layout transition is a write, ordered after srcStage and before dstStage: the previous writes have to be available, even if their content is discarded.
	void Driver::transitionCell( SyncCell & s, VkPipelineStageFlags src, VkAccessFlags srcA, VkPipelineStageFlags dst, VkAccessFlags dstA, char const * kind, std::string const & what, std::string const & pos )
	{
		auto se = expandSrc( src );
		bool okw = !s.written || ( s.wStage & se ) || ( s.wChain & se );
		auto sp = plainStages( src );
		bool avail = !s.written || s.wAvailable || ( ( s.wStage & sp ) && ( srcA & ( s.wAccess | VK_ACCESS_MEMORY_WRITE_BIT ) ) );
		if ( !( okw && avail ) )
		{
			++hazardsSeen;
			viol( "sync", std::string{ "waw:" } + kind, what + " is not synchronised with the write by " + s.writer + pos );
		}
		for ( auto & r : s.reads )
			if ( ( r.stage & se ) != r.stage && !( r.chain & se ) )
			{
				++hazardsSeen;
				viol( "sync", std::string{ "war:" } + kind, what + " may overtake the read by " + r.who + pos );
			}
		SyncCell n;
		n.written = true;
		n.wAvailable = true;
		n.wChain = expandDst( dst );
		n.visible.emplace_back( plainStages( dst ), dstA );
		n.writer = "layout transition";
		s = n;
	}

	void Driver::resetSync()
	{
		for ( auto & [h, o] : objs )
		{
			for ( auto & s : o->subs ) s.sync = {};
			for ( auto & s : o->granSync ) s = {};
		}
	}

	//*********************************************************************************************
	// Object gathering for a submission
	//*********************************************************************************************

	void Driver::collectObjects( Obj & cb, std::set< uint64_t > & out )
	{
		out.insert( cb.h );
		auto addView = [&]( uint64_t v )
		{
			out.insert( v );
			if ( auto o = get( v, T::ImageView ) ) out.insert( o->parent );
			if ( auto o = get( v, T::BufferView ) ) out.insert( o->parent );
		};
		for ( auto & c : cb.cmds )
		{
			for ( auto & b : c.imgB ) out.insert( ( uint64_t )b.image );
			for ( auto & b : c.bufB ) out.insert( ( uint64_t )b.buffer );
			for ( auto h : c.handles ) if ( h ) out.insert( h );
			switch ( c.op )
			{
			case Op::Marker: case Op::LabelBegin: case Op::LabelEnd: case Op::Barrier: case Op::EndRP: break;
			default:
				if ( c.a ) out.insert( c.a );
				if ( c.b ) out.insert( c.b );
			}
			if ( c.op == Op::BeginRP )
				if ( auto fb = get( c.b, T::Framebuffer ) )
					for ( auto v : fb->fbViews ) addView( ( uint64_t )v );
			if ( c.op == Op::BindSets )
				for ( auto h : c.handles )
					if ( auto ds = get( h, T::DSet ) )
						for ( auto & [_, ws] : ds->writes )
							for ( auto & w : ws )
							{
								if ( w.img.imageView ) addView( ( uint64_t )w.img.imageView );
								if ( w.img.sampler ) out.insert( ( uint64_t )w.img.sampler );
								if ( w.buf.buffer ) out.insert( ( uint64_t )w.buf.buffer );
								if ( w.texel ) addView( ( uint64_t )w.texel );
							}
		}
	}

	//*********************************************************************************************
	// Structure of a finished command buffer
	//*********************************************************************************************

	void Driver::structureCheck( Obj & cb )
	{
		int u = 0, m = 0;
		bool inRP = false;
		for ( auto & c : cb.cmds )
		{
			if ( c.op == Op::LabelBegin ) ++( c.n[0] ? m : u );
			if ( c.op == Op::LabelEnd )
			{
				int & v = c.n[0] ? m : u;
				if ( --v < 0 )
				{
					viol( "struct", "label-underflow", "A debug label is ended which was not begun" );
					v = 0;
				}
			}
			if ( c.op == Op::BeginRP )
			{
				if ( inRP ) viol( "struct", "nested-renderpass", "A render pass is begun inside a render pass" );
				inRP = true;
			}
			else if ( c.op == Op::EndRP )
			{
				if ( !inRP ) viol( "struct", "renderpass-end", "A render pass is ended which was not begun" );
				inRP = false;
			}
			else if ( inRP )
			{
				switch ( c.op )
				{
				case Op::Barrier: case Op::ClearColor: case Op::ClearDS: case Op::Dispatch: case Op::DispatchIndirect: case Op::ResetQuery:
				case Op::Blit: case Op::CopyBuf: case Op::CopyB2I: case Op::CopyImg: case Op::CopyI2B: case Op::FillBuf:
					viol( "struct", std::string( "inside-renderpass-" ) + opName( c.op ), std::string( opName( c.op ) ) + " recorded inside a render pass instance" );
					break;
				default: break;
				}
			}
			else
			{
				switch ( c.op )
				{
				case Op::Draw: case Op::DrawIndexed: case Op::DrawIndirect: case Op::DrawIndexedIndirect:
					viol( "struct", std::string( "outside-renderpass-" ) + opName( c.op ), std::string( opName( c.op ) ) + " recorded outside of a render pass instance" );
					break;
				default: break;
				}
			}
		}
		if ( inRP ) viol( "struct", "renderpass-open", "Command buffer ended inside a render pass instance" );
		if ( u || m ) viol( "struct", "label-open", "Command buffer ended with open debug labels" );
	}

	//*********************************************************************************************
	// Replay
	//*********************************************************************************************

	static bool rpCompatible( RPInfo const & a, RPInfo const & b )
	{
		if ( a.attaches.size() != b.attaches.size() || a.colours.size() != b.colours.size() || a.hasDepth != b.hasDepth )
			return false;
		for ( size_t i = 0; i < a.attaches.size(); ++i )
			if ( a.attaches[i].format != b.attaches[i].format || a.attaches[i].samples != b.attaches[i].samples )
				return false;
		for ( size_t i = 0; i < a.colours.size(); ++i )
			if ( a.colours[i].attachment != b.colours[i].attachment )
				return false;
		return !a.hasDepth || a.depth.attachment == b.depth.attachment;
	}

	static VkExtent3D mipExtent( Obj const & img, uint32_t m )
	{
		return { std::max( 1u, img.imgCI.extent.width >> m ), std::max( 1u, img.imgCI.extent.height >> m ), std::max( 1u, img.imgCI.extent.depth >> m ) };
	}

	static uint32_t texelSize( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_R8G8B8A8_UNORM: case VK_FORMAT_R32_SFLOAT: case VK_FORMAT_D32_SFLOAT: case VK_FORMAT_B8G8R8A8_UNORM: return 4;
		case VK_FORMAT_R16G16B16A16_SFLOAT: return 8;
		case VK_FORMAT_R32G32B32A32_SFLOAT: return 16;
		case VK_FORMAT_R8_UNORM: case VK_FORMAT_S8_UINT: return 1;
		case VK_FORMAT_D16_UNORM: return 2;
		default: return 4;
		}
	}

	void Driver::replay( Obj & cb )
	{
		Exec e{ *this, cb };
		auto alive = [&]( uint64_t h, T t, char const * what ) -> Obj *
		{
			auto o = get( h, t );
			if ( !o )
			{
				viol( "lifetime", std::string( "use-unknown-" ) + typeName( t ), std::string( what ) + " refers to an unknown " + typeName( t ) );
				return nullptr;
			}
			if ( !o->alive )
			{
				viol( "lifetime", std::string( "use-after-destroy-" ) + typeName( t ), std::string( what ) + " refers to destroyed " + describe( h ) );
			}
			return o;
		};
		auto inBounds = [&]( Obj & img, VkImageSubresourceRange const & r, char const * what )
		{
			auto L = layersOf( img );
			auto M = img.imgCI.mipLevels;
			bool ok = r.baseMipLevel < M && r.baseArrayLayer < L
				&& ( r.levelCount == VK_REMAINING_MIP_LEVELS || ( r.levelCount > 0 && r.baseMipLevel + r.levelCount <= M ) )
				&& ( r.layerCount == VK_REMAINING_ARRAY_LAYERS || ( r.layerCount > 0 && r.baseArrayLayer + r.layerCount <= L ) );
			VkImageAspectFlags allowed = isDepthFmt( img.imgCI.format ) ? VK_IMAGE_ASPECT_DEPTH_BIT : 0;
			allowed |= isStencilFmt( img.imgCI.format ) ? VK_IMAGE_ASPECT_STENCIL_BIT : 0;
			if ( !allowed ) allowed = VK_IMAGE_ASPECT_COLOR_BIT;
			if ( !r.aspectMask || ( r.aspectMask & ~allowed ) ) ok = false;
			if ( !ok )
				viol( "bounds", std::string( "range-" ) + what, std::string( what ) + " names a subresource range outside of " + describe( img.h )
					+ " (mips " + std::to_string( r.baseMipLevel ) + "+" + std::to_string( r.levelCount ) + "/" + std::to_string( M )
					+ ", layers " + std::to_string( r.baseArrayLayer ) + "+" + std::to_string( r.layerCount ) + "/" + std::to_string( L ) + ", aspects " + std::to_string( r.aspectMask ) + ")" );
			return ok;
		};
		auto expectLayout = [&]( Obj & img, VkImageSubresourceRange const & r, VkImageLayout l, char const * cat, std::string const & what )
		{
			bool hasDepth = isDepthFmt( img.imgCI.format );
			forRange( img, r, [&]( Sub & s, uint32_t a, uint32_t ly, uint32_t m )
			{
				++subChecks;
				if ( s.layout != normLayout( l, a, hasDepth ) )
					viol( cat, "layout-" + what, what + " expects " + describe( img.h ) + " layer " + std::to_string( ly ) + " mip " + std::to_string( m ) + " aspect " + std::to_string( a )
						+ " in " + layoutName( l ) + " but it is in " + layoutName( s.layout ) );
			} );
		};
		auto sub2range = []( VkImageSubresourceLayers const & s )
		{
			return VkImageSubresourceRange{ s.aspectMask, s.mipLevel, 1u, s.baseArrayLayer, s.layerCount };
		};
		auto stPos = [&]{ return " (command " + std::to_string( e.pos ) + ")"; };
		auto bufRange = [&]( Obj & b, VkDeviceSize off, VkDeviceSize size, char const * what, bool align4 = false )
		{
			if ( size == VK_WHOLE_SIZE ) size = off <= b.bufCI.size ? b.bufCI.size - off : 0;
			if ( off + size > b.bufCI.size || size == 0 || ( align4 && ( off % 4 || size % 4 ) ) )
				viol( "bounds", std::string( "buffer-" ) + what, std::string( what ) + " accesses [" + std::to_string( off ) + ", " + std::to_string( off + size ) + ") of " + describe( b.h ) + " of size " + std::to_string( b.bufCI.size ) );
			return size;
		};
		auto forGran = [&]( Obj & b, VkDeviceSize off, VkDeviceSize size, auto && f )
		{
			if ( size == VK_WHOLE_SIZE ) size = off <= b.bufCI.size ? b.bufCI.size - off : 0;
			if ( size == 0 ) return;
			for ( size_t g = size_t( off / Granule ); g <= size_t( ( off + size - 1 ) / Granule ) && g < b.granContent.size(); ++g )
				f( g );
		};
		auto checkDraw = [&]( int bp )
		{
			auto p = get( e.pipe[bp], T::Pipeline );
			char const * what = bp ? "dispatch" : "draw";
			if ( !p )
			{
				viol( "pipe", std::string( "no-pipeline-" ) + what, std::string( what ) + " without a bound pipeline" + stPos() );
				return;
			}
			if ( !p->alive )
				viol( "lifetime", "use-after-destroy-Pipeline", std::string( what ) + " with destroyed " + describe( p->h ) );
			if ( p->pipe.compute != ( bp == 1 ) )
				viol( "pipe", "bindpoint", std::string( what ) + " with a pipeline of the wrong kind" );
			if ( bp == 0 && e.inRP && !rpCompatible( p->pipe.rpCopy, e.rpInfo ) )
				viol( "rp", "pipeline-incompatible", "draw with " + describe( p->h ) + " whose render pass is not compatible with the current one" );
			if ( bp == 0 && e.inRP && p->pipe.blends.size() != e.rpInfo.colours.size() )
				viol( "rp", "blend-count", "draw with " + describe( p->h ) + " having " + std::to_string( p->pipe.blends.size() ) + " blend states for " + std::to_string( e.rpInfo.colours.size() ) + " colour attachments" );
			auto pl = get( ( uint64_t )p->pipe.layout, T::PipelineLayout );
			if ( !pl ) return;
			for ( size_t i = 0; i < pl->setLayouts.size(); ++i )
			{
				auto sl = get( ( uint64_t )pl->setLayouts[i], T::DSLayout );
				if ( !sl || sl->bindings.empty() )
					continue;
				auto ds = i < e.sets[bp].size() ? get( e.sets[bp][i], T::DSet ) : nullptr;
				if ( !ds )
				{
					viol( "desc", std::string( "no-set-" ) + what, std::string( what ) + " without a bound descriptor set" + stPos() );
					continue;
				}
				auto dl = get( ds->dsLayout, T::DSLayout );
				bool compat = dl && dl->bindings.size() == sl->bindings.size();
				if ( compat )
					for ( size_t k = 0; k < sl->bindings.size(); ++k )
						compat = compat && sl->bindings[k].binding == dl->bindings[k].binding && sl->bindings[k].descriptorType == dl->bindings[k].descriptorType
							&& sl->bindings[k].descriptorCount == dl->bindings[k].descriptorCount && sl->bindings[k].stageFlags == dl->bindings[k].stageFlags;
				if ( !compat )
					viol( "desc", "set-layout", std::string( what ) + " with a descriptor set which does not match the pipeline layout" );
				for ( auto & b : sl->bindings )
				{
					auto it = ds->writes.find( b.binding );
					if ( it == ds->writes.end() || it->second.size() < b.descriptorCount )
					{
						viol( "desc", "unwritten", std::string( what ) + " with descriptor binding " + std::to_string( b.binding ) + " not written" );
						continue;
					}
					for ( auto & w : it->second )
					{
						if ( w.type != b.descriptorType )
							viol( "desc", "type", "descriptor binding " + std::to_string( b.binding ) + " written with another type than its layout's" );
						if ( w.img.imageView )
						{
							if ( auto v = alive( ( uint64_t )w.img.imageView, T::ImageView, "descriptor" ) )
								if ( auto img = alive( v->parent, T::Image, "descriptor" ) )
									expectLayout( *img, v->viewCI.subresourceRange, w.img.imageLayout, "desc-layout", std::string( what ) + "-descriptor" );
						}
						if ( w.img.sampler ) alive( ( uint64_t )w.img.sampler, T::Sampler, "descriptor" );
						if ( w.buf.buffer )
							if ( auto bo = alive( ( uint64_t )w.buf.buffer, T::Buffer, "descriptor" ) )
								bufRange( *bo, w.buf.offset, w.buf.range, "descriptor" );
						if ( w.texel ) alive( ( uint64_t )w.texel, T::BufferView, "descriptor" );
					}
				}
			}
		};

		for ( e.pos = 0; e.pos < cb.cmds.size(); ++e.pos )
		{
			Cmd const & c = cb.cmds[e.pos];
			e.cmd = &c;
			++cmdsReplayed;
			switch ( c.op )
			{
			case Op::Barrier:
				{
					if ( !c.src || !c.dst )
						viol( "sync-form", "zero-stage", "pipeline barrier with an empty stage mask" + stPos() );
					for ( auto & b : c.imgB )
					{
						++barriersReplayed;
						if ( traceCmds )
							printf( "    [%zu] barrier %s m%u+%u l%u+%u a%u %s->%s stages %x->%x access %x->%x\n", e.pos, describe( ( uint64_t )b.image ).c_str(), b.subresourceRange.baseMipLevel, b.subresourceRange.levelCount, b.subresourceRange.baseArrayLayer, b.subresourceRange.layerCount, b.subresourceRange.aspectMask, layoutName( b.oldLayout ), layoutName( b.newLayout ), c.src, c.dst, b.srcAccessMask, b.dstAccessMask );
						auto img = alive( ( uint64_t )b.image, T::Image, "barrier" );
						if ( !img || !inBounds( *img, b.subresourceRange, "barrier" ) ) continue;
						if ( b.newLayout == VK_IMAGE_LAYOUT_UNDEFINED )
							viol( "layout", "barrier-to-undefined", "barrier to UNDEFINED on " + describe( img->h ) + stPos() );
						bool hasDepth = isDepthFmt( img->imgCI.format );
						if ( aspectCount( *img ) == 2 && !separateDS
							&& b.subresourceRange.aspectMask != ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) )
							viol( "layout", "barrier-single-aspect", "barrier on one aspect of " + describe( img->h ) + " without separate depth/stencil layouts" );
						forRange( *img, b.subresourceRange, [&]( Sub & s, uint32_t a, uint32_t ly, uint32_t m )
						{
							++subChecks;
							if ( b.oldLayout == VK_IMAGE_LAYOUT_UNDEFINED )
							{
								if ( b.oldLayout != b.newLayout )
									s.content = 0;
							}
							else if ( s.layout != normLayout( b.oldLayout, a, hasDepth ) )
								viol( "layout", "barrier-old-layout", "barrier claims " + describe( img->h ) + " layer " + std::to_string( ly ) + " mip " + std::to_string( m ) + " aspect " + std::to_string( a )
									+ " is in " + layoutName( b.oldLayout ) + " but it is in " + layoutName( s.layout ) + ", new " + layoutName( b.newLayout ) + stPos() );
							if ( checkSync )
							{
								bool trans = b.oldLayout != b.newLayout;
								if ( trans )
								{
									transitionCell( s.sync, c.src, b.srcAccessMask, c.dst, b.dstAccessMask, "image-transition", "the layout transition of " + describe( img->h ) + " to " + layoutName( b.newLayout ), stPos() );
								}
								else
									barrierCell( s.sync, c.src, b.srcAccessMask, c.dst, b.dstAccessMask );
							}
							s.layout = normLayout( b.newLayout, a, hasDepth );
						} );
					}
					for ( auto & b : c.bufB )
					{
						++barriersReplayed;
						auto buf = alive( ( uint64_t )b.buffer, T::Buffer, "barrier" );
						if ( !buf ) continue;
						bufRange( *buf, b.offset, b.size, "barrier" );
						if ( checkSync )
							forGran( *buf, b.offset, b.size, [&]( size_t g ){ barrierCell( buf->granSync[g], c.src, b.srcAccessMask, c.dst, b.dstAccessMask ); } );
					}
					for ( auto & b : c.memB )
					{
						if ( checkSync )
							for ( auto & [h, o] : objs )
							{
								for ( auto & s : o->subs ) barrierCell( s.sync, c.src, b.srcAccessMask, c.dst, b.dstAccessMask );
								for ( auto & s : o->granSync ) barrierCell( s, c.src, b.srcAccessMask, c.dst, b.dstAccessMask );
							}
					}
					break;
				}
			case Op::ClearColor: case Op::ClearDS:
				{
					auto img = alive( c.a, T::Image, "clear" );
					if ( !img ) break;
					bool colour = !isDepthFmt( img->imgCI.format ) && !isStencilFmt( img->imgCI.format );
					if ( colour != ( c.op == Op::ClearColor ) )
						viol( "bounds", "clear-kind", std::string( opName( c.op ) ) + " on " + describe( img->h ) + " of another kind of format" );
					for ( auto & r : c.ranges )
					{
						if ( !inBounds( *img, r, "clear" ) ) continue;
						expectLayout( *img, r, c.la, "layout", "clear" );
						forRange( *img, r, [&]( Sub & s, uint32_t a, uint32_t, uint32_t )
						{
							uint32_t aa = ( !colour && !isDepthFmt( img->imgCI.format ) ) ? 1u : a;
							s.content = clearToken( colour, c.clears[0], aa );
							accessImage( s, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "a clear command", "image" );
						} );
					}
					break;
				}
			case Op::BeginRP:
				{
					auto rp = alive( c.a, T::RenderPass, "BeginRenderPass" );
					auto fb = alive( c.b, T::Framebuffer, "BeginRenderPass" );
					if ( !rp || !fb ) break;
					e.inRP = true;
					e.rp = rp;
					e.fb = fb;
					e.rpInfo = rp->rp;
					e.views = fb->fbViews;
					e.clears = c.clears;
					e.area = c.area;
					if ( !rpCompatible( fb->fbRPCopy, rp->rp ) )
						viol( "rp", "framebuffer-incompatible", "framebuffer created for an incompatible render pass" );
					if ( fb->fbViews.size() != rp->rp.attaches.size() )
					{
						viol( "rp", "attach-count", "framebuffer has " + std::to_string( fb->fbViews.size() ) + " attachments, render pass " + std::to_string( rp->rp.attaches.size() ) );
						break;
					}
					if ( c.area.offset.x < 0 || c.area.offset.y < 0 || c.area.extent.width == 0 || c.area.extent.height == 0
						|| c.area.offset.x + c.area.extent.width > fb->fbW || c.area.offset.y + c.area.extent.height > fb->fbH )
						viol( "rp", "render-area", "render area " + std::to_string( c.area.extent.width ) + "x" + std::to_string( c.area.extent.height ) + " exceeds framebuffer " + std::to_string( fb->fbW ) + "x" + std::to_string( fb->fbH ) );
					VkSubpassDependency depIn{ VK_SUBPASS_EXTERNAL, 0u, VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, 0u
						, VK_ACCESS_INPUT_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, 0u };
					for ( auto & d : rp->rp.deps ) if ( d.srcSubpass == VK_SUBPASS_EXTERNAL ) depIn = d;
					for ( size_t i = 0; i < rp->rp.attaches.size(); ++i )
					{
						auto & at = rp->rp.attaches[i];
						auto v = alive( ( uint64_t )fb->fbViews[i], T::ImageView, "framebuffer" );
						if ( !v ) continue;
						auto img = alive( v->parent, T::Image, "framebuffer" );
						if ( !img ) continue;
						auto & r = v->viewCI.subresourceRange;
						auto me = mipExtent( *img, r.baseMipLevel );
						if ( v->viewCI.format != at.format )
							viol( "rp", "attach-format", "framebuffer attachment " + std::to_string( i ) + " has another format than the render pass'" );
						if ( fb->fbW > me.width || fb->fbH > me.height )
							viol( "rp", "fb-size", "framebuffer " + std::to_string( fb->fbW ) + "x" + std::to_string( fb->fbH ) + " larger than attachment " + std::to_string( me.width ) + "x" + std::to_string( me.height ) );
						if ( r.levelCount != 1 )
							viol( "rp", "fb-levels", "framebuffer attachment view has " + std::to_string( r.levelCount ) + " mip levels" );
						if ( r.layerCount < fb->fbL )
							viol( "rp", "fb-layers", "framebuffer has " + std::to_string( fb->fbL ) + " layers, attachment view only " + std::to_string( r.layerCount ) );
						if ( at.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED || at.finalLayout == VK_IMAGE_LAYOUT_PREINITIALIZED )
							viol( "layout", "rp-final-undefined", "render pass attachment ends in UNDEFINED layout" );
						bool hasDepth = isDepthFmt( img->imgCI.format );
						bool colour = !hasDepth && !isStencilFmt( img->imgCI.format );
						VkImageLayout refLayout = VK_IMAGE_LAYOUT_UNDEFINED;
						for ( auto & cr : rp->rp.colours ) if ( cr.attachment == i ) refLayout = cr.layout;
						if ( rp->rp.hasDepth && rp->rp.depth.attachment == i ) refLayout = rp->rp.depth.layout;
						if ( refLayout == VK_IMAGE_LAYOUT_UNDEFINED )
							viol( "rp", "attach-unreferenced", "render pass attachment " + std::to_string( i ) + " is not referenced by the subpass" );
						// a depth/stencil attachment covers both aspects of the image
						auto rr = r;
						if ( !colour )
							rr.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
						forRange( *img, rr, [&]( Sub & s, uint32_t a, uint32_t ly, uint32_t m )
						{
							++subChecks;
							bool isStencil = !colour && !( hasDepth && a == 0 );
							if ( at.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED )
								s.content = 0;
							else if ( s.layout != normLayout( at.initialLayout, a, hasDepth ) )
								viol( "layout", "rp-initial-layout", "render pass claims attachment " + std::to_string( i ) + " " + describe( img->h ) + " layer " + std::to_string( ly ) + " mip " + std::to_string( m ) + " aspect " + std::to_string( a )
									+ " is in " + layoutName( at.initialLayout ) + " but it is in " + layoutName( s.layout ) + stPos() );
							auto op = isStencil ? at.stencilLoadOp : at.loadOp;
							if ( op == VK_ATTACHMENT_LOAD_OP_CLEAR )
							{
								if ( i >= c.clears.size() )
									viol( "rp", "clear-count", "render pass clears attachment " + std::to_string( i ) + " but only " + std::to_string( c.clears.size() ) + " clear values are given" );
								else
									s.content = clearToken( colour, c.clears[i], isStencil ? 1u : 0u );
							}
							else if ( op == VK_ATTACHMENT_LOAD_OP_DONT_CARE )
								s.content = 0;
							if ( checkSync )
							{
								auto rl = normLayout( refLayout, a, hasDepth );
								bool trans = at.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED || normLayout( at.initialLayout, a, hasDepth ) != rl;
								auto what = "render pass attachment " + describe( img->h );
								if ( trans )
									transitionCell( s.sync, depIn.srcStageMask, depIn.srcAccessMask, depIn.dstStageMask, depIn.dstAccessMask, "attachment-transition", what + "'s initial transition", stPos() );
								else
									barrierCell( s.sync, depIn.srcStageMask, depIn.srcAccessMask, depIn.dstStageMask, depIn.dstAccessMask );
								auto stage = VkPipelineStageFlags( colour ? VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT : VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT );
								if ( op == VK_ATTACHMENT_LOAD_OP_LOAD )
									accessCell( s.sync, stage, colour ? VK_ACCESS_COLOR_ATTACHMENT_READ_BIT : VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, false, what, colour ? "attachment-load:colour" : "attachment-load:depth-stencil" );
								else
									accessCell( s.sync, stage, colour ? VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT : VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, true, what, colour ? "attachment-clear:colour" : "attachment-clear:depth-stencil" );
								++attachSyncs;
							}
							s.layout = normLayout( refLayout, a, hasDepth );
						} );
					}
					break;
				}
			case Op::EndRP:
				{
					if ( !e.inRP ) break;
					VkSubpassDependency depOut{ 0u, VK_SUBPASS_EXTERNAL, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
						, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, 0u, 0u };
					for ( auto & d : e.rpInfo.deps ) if ( d.dstSubpass == VK_SUBPASS_EXTERNAL ) depOut = d;
					for ( size_t i = 0; i < e.rpInfo.attaches.size() && i < e.views.size(); ++i )
					{
						auto & at = e.rpInfo.attaches[i];
						auto v = get( ( uint64_t )e.views[i], T::ImageView );
						auto img = v ? get( v->parent, T::Image ) : nullptr;
						if ( !img ) continue;
						bool hasDepth = isDepthFmt( img->imgCI.format );
						bool colour = !hasDepth && !isStencilFmt( img->imgCI.format );
						auto rr = v->viewCI.subresourceRange;
						if ( !colour )
							rr.aspectMask = VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
						forRange( *img, rr, [&]( Sub & s, uint32_t a, uint32_t, uint32_t )
						{
							bool isStencil = !colour && !( hasDepth && a == 0 );
							auto op = isStencil ? at.stencilStoreOp : at.storeOp;
							if ( op == VK_ATTACHMENT_STORE_OP_DONT_CARE )
								s.content = 0;
							if ( checkSync )
							{
								SyncCell n;
								n.written = true;
								n.wStage = VkPipelineStageFlags( colour ? VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT : VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT );
								n.wAccess = colour ? VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT : VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
								n.writer = "render pass attachment " + describe( img->h );
								s.sync = n;
								auto fl = normLayout( at.finalLayout, a, hasDepth );
								if ( fl != s.layout )
									transitionCell( s.sync, depOut.srcStageMask, depOut.srcAccessMask, depOut.dstStageMask, depOut.dstAccessMask, "attachment-transition", "the final transition of " + n.writer, stPos() );
								else
									barrierCell( s.sync, depOut.srcStageMask, depOut.srcAccessMask, depOut.dstStageMask, depOut.dstAccessMask );
							}
							s.layout = normLayout( at.finalLayout, a, hasDepth );
						} );
					}
					e.inRP = false;
					e.rp = e.fb = nullptr;
					break;
				}
			case Op::BindPipe:
				alive( c.a, T::Pipeline, "BindPipeline" );
				e.pipe[c.bindPoint] = c.a;
				break;
			case Op::BindSets:
				{
					auto first = c.n[0];
					if ( e.sets[c.bindPoint].size() < first + c.handles.size() )
						e.sets[c.bindPoint].resize( first + c.handles.size() );
					for ( size_t i = 0; i < c.handles.size(); ++i )
					{
						alive( c.handles[i], T::DSet, "BindDescriptorSets" );
						e.sets[c.bindPoint][first + i] = c.handles[i];
					}
					break;
				}
			case Op::BindVB:
				for ( auto h : c.handles ) alive( h, T::Buffer, "BindVertexBuffers" );
				e.vbs = c.handles;
				e.vbOffs = c.offs;
				break;
			case Op::BindIB:
				alive( c.a, T::Buffer, "BindIndexBuffer" );
				e.ib = c.a;
				e.ibOff = c.offs[0];
				e.ibType = c.n[0];
				break;
			case Op::Draw: case Op::DrawIndexed: case Op::DrawIndirect: case Op::DrawIndexedIndirect:
				checkDraw( 0 );
				if ( c.op == Op::DrawIndexed || c.op == Op::DrawIndexedIndirect )
					if ( !e.ib ) viol( "pipe", "no-index-buffer", "indexed draw without an index buffer" );
				if ( auto p = get( e.pipe[0], T::Pipeline ) )
					for ( auto & b : p->pipe.viBindings )
						if ( b.binding >= e.vbs.size() || !e.vbs[b.binding] )
							viol( "pipe", "no-vertex-buffer", "draw without the vertex buffer for binding " + std::to_string( b.binding ) );
				if ( c.a )
					if ( auto o = alive( c.a, T::Buffer, "indirect draw" ) )
						bufRange( *o, c.offs[0], std::max( 16u, c.n[1] * std::max( 1u, c.n[0] ) ), "indirect" );
				break;
			case Op::Dispatch: case Op::DispatchIndirect:
				checkDraw( 1 );
				if ( c.a )
					if ( auto o = alive( c.a, T::Buffer, "indirect dispatch" ) )
						bufRange( *o, c.offs[0], 12u, "indirect" );
				break;
			case Op::Push:
				alive( c.a, T::PipelineLayout, "PushConstants" );
				break;
			case Op::ResetQuery:
				if ( auto q = alive( c.a, T::QueryPool, "ResetQueryPool" ) )
				{
					if ( c.n[0] + c.n[1] > q->queryCount )
						viol( "query", "range", "query reset outside of its pool: " + std::to_string( c.n[0] ) + "+" + std::to_string( c.n[1] ) + " of " + std::to_string( q->queryCount ) );
					for ( uint32_t i = c.n[0]; i < c.n[0] + c.n[1] && i < q->queryCount; ++i )
						q->queryState[i] = 1;
				}
				break;
			case Op::WriteTS:
				if ( auto q = alive( c.a, T::QueryPool, "WriteTimestamp" ) )
				{
					if ( c.n[0] >= q->queryCount )
					{
						viol( "query", "range", "timestamp written outside of its pool: " + std::to_string( c.n[0] ) + " of " + std::to_string( q->queryCount ) );
						break;
					}
					if ( q->queryState[c.n[0]] != 1 )
						viol( "query", "not-reset", "timestamp query " + std::to_string( c.n[0] ) + " written without having been reset" );
					q->queryState[c.n[0]] = 2;
					clock += tickStep;
					q->queryValue[c.n[0]] = clock;
				}
				break;
			case Op::Blit:
				{
					auto s = alive( c.a, T::Image, "BlitImage" );
					auto d = alive( c.b, T::Image, "BlitImage" );
					if ( !s || !d ) break;
					for ( auto & r : c.blits )
					{
						auto sr = sub2range( r.srcSubresource ), dr = sub2range( r.dstSubresource );
						if ( !inBounds( *s, sr, "blit-src" ) || !inBounds( *d, dr, "blit-dst" ) ) continue;
						expectLayout( *s, sr, c.la, "layout", "blit-src" );
						expectLayout( *d, dr, c.lb, "layout", "blit-dst" );
						auto chk = [&]( VkOffset3D const * o, VkExtent3D const & x, char const * w )
						{
							for ( int k = 0; k < 2; ++k )
								if ( o[k].x < 0 || o[k].y < 0 || o[k].z < 0 || uint32_t( o[k].x ) > x.width || uint32_t( o[k].y ) > x.height || uint32_t( o[k].z ) > x.depth )
									viol( "bounds", std::string( "blit-region-" ) + w, std::string( "blit " ) + w + " region exceeds the mip level's extent" );
							if ( o[0].x == o[1].x || o[0].y == o[1].y || o[0].z == o[1].z )
								viol( "bounds", std::string( "blit-empty-" ) + w, std::string( "blit " ) + w + " region is empty" );
						};
						chk( r.srcOffsets, mipExtent( *s, sr.baseMipLevel ), "src" );
						chk( r.dstOffsets, mipExtent( *d, dr.baseMipLevel ), "dst" );
						std::vector< uint64_t > toks;
						forRange( *s, sr, [&]( Sub & x, uint32_t, uint32_t, uint32_t )
						{
							accessImage( x, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "a blit", "image" );
							toks.push_back( x.content );
						} );
						size_t i = 0;
						forRange( *d, dr, [&]( Sub & x, uint32_t, uint32_t, uint32_t )
						{
							accessImage( x, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "a blit", "image" );
							auto tk = i < toks.size() ? toks[i] : 0;
							++i;
							x.content = tk ? mix( tk, 0xB117 + uint64_t( c.filter ) ) : 0;
						} );
						if ( r.srcSubresource.layerCount != r.dstSubresource.layerCount )
							viol( "bounds", "blit-layers", "blit between different layer counts" );
					}
					break;
				}
			case Op::CopyImg:
				{
					auto s = alive( c.a, T::Image, "CopyImage" );
					auto d = alive( c.b, T::Image, "CopyImage" );
					if ( !s || !d ) break;
					for ( auto & r : c.icopies )
					{
						auto sr = sub2range( r.srcSubresource ), dr = sub2range( r.dstSubresource );
						if ( !inBounds( *s, sr, "copy-src" ) || !inBounds( *d, dr, "copy-dst" ) ) continue;
						expectLayout( *s, sr, c.la, "layout", "copy-src" );
						expectLayout( *d, dr, c.lb, "layout", "copy-dst" );
						auto chk = [&]( VkOffset3D const & o, VkExtent3D const & x, char const * w )
						{
							if ( o.x < 0 || o.y < 0 || o.z < 0 || o.x + r.extent.width > x.width || o.y + r.extent.height > x.height || o.z + r.extent.depth > x.depth
								|| !r.extent.width || !r.extent.height || !r.extent.depth )
								viol( "bounds", std::string( "copy-region-" ) + w, std::string( "image copy " ) + w + " region " + std::to_string( r.extent.width ) + "x" + std::to_string( r.extent.height ) + "x" + std::to_string( r.extent.depth ) + " exceeds the mip level's extent " + std::to_string( x.width ) + "x" + std::to_string( x.height ) + "x" + std::to_string( x.depth ) );
						};
						chk( r.srcOffset, mipExtent( *s, sr.baseMipLevel ), "src" );
						chk( r.dstOffset, mipExtent( *d, dr.baseMipLevel ), "dst" );
						std::vector< uint64_t > toks;
						forRange( *s, sr, [&]( Sub & x, uint32_t, uint32_t, uint32_t )
						{
							accessImage( x, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "a copy", "image" );
							toks.push_back( x.content );
						} );
						size_t i = 0;
						forRange( *d, dr, [&]( Sub & x, uint32_t, uint32_t, uint32_t )
						{
							accessImage( x, VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "a copy", "image" );
							x.content = i < toks.size() ? toks[i] : 0;
							++i;
						} );
						if ( r.srcSubresource.layerCount != r.dstSubresource.layerCount )
							viol( "bounds", "copy-layers", "image copy between different layer counts" );
					}
					break;
				}
			case Op::CopyBuf:
				{
					auto s = alive( c.a, T::Buffer, "CopyBuffer" );
					auto d = alive( c.b, T::Buffer, "CopyBuffer" );
					if ( !s || !d ) break;
					for ( auto & r : c.bcopies )
					{
						bufRange( *s, r.srcOffset, r.size, "copy-src" );
						bufRange( *d, r.dstOffset, r.size, "copy-dst" );
						std::vector< uint64_t > toks;
						forGran( *s, r.srcOffset, r.size, [&]( size_t g )
						{
							accessCell( s->granSync[g], VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_READ_BIT, false, "a buffer copy", "buffer" );
							toks.push_back( s->granContent[g] );
						} );
						size_t i = 0;
						forGran( *d, r.dstOffset, r.size, [&]( size_t g )
						{
							accessCell( d->granSync[g], VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "a buffer copy", "buffer" );
							d->granContent[g] = i < toks.size() ? toks[i] : 0;
							++i;
						} );
					}
					break;
				}
			case Op::CopyB2I: case Op::CopyI2B:
				{
					bool b2i = c.op == Op::CopyB2I;
					auto buf = alive( b2i ? c.a : c.b, T::Buffer, opName( c.op ) );
					auto img = alive( b2i ? c.b : c.a, T::Image, opName( c.op ) );
					if ( !buf || !img ) break;
					for ( auto & r : c.bicopies )
					{
						auto ir = sub2range( r.imageSubresource );
						if ( !inBounds( *img, ir, "buffer-image-copy" ) ) continue;
						expectLayout( *img, ir, c.la, "layout", b2i ? "copy-buffer-to-image" : "copy-image-to-buffer" );
						auto x = mipExtent( *img, ir.baseMipLevel );
						if ( r.imageOffset.x < 0 || r.imageOffset.y < 0 || r.imageOffset.z < 0 || r.imageOffset.x + r.imageExtent.width > x.width || r.imageOffset.y + r.imageExtent.height > x.height || r.imageOffset.z + r.imageExtent.depth > x.depth
							|| !r.imageExtent.width || !r.imageExtent.height || !r.imageExtent.depth )
							viol( "bounds", "buffer-image-region", "buffer/image copy region exceeds the mip level's extent" );
						uint64_t row = r.bufferRowLength ? r.bufferRowLength : r.imageExtent.width;
						uint64_t hgt = r.bufferImageHeight ? r.bufferImageHeight : r.imageExtent.height;
						uint64_t bytes = row * hgt * r.imageExtent.depth * r.imageSubresource.layerCount * texelSize( img->imgCI.format );
						bufRange( *buf, r.bufferOffset, bytes, "buffer-image-copy" );
						std::vector< uint64_t > toks;
						auto doBuf = [&]( bool write )
						{
							size_t i = 0;
							forGran( *buf, r.bufferOffset, bytes, [&]( size_t g )
							{
								accessCell( buf->granSync[g], VK_PIPELINE_STAGE_TRANSFER_BIT, write ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT, write, opName( c.op ), "buffer" );
								if ( write ) buf->granContent[g] = toks.empty() ? 0 : toks[std::min( i, toks.size() - 1 )];
								else toks.push_back( buf->granContent[g] );
								++i;
							} );
						};
						auto doImg = [&]( bool write )
						{
							size_t i = 0;
							forRange( *img, ir, [&]( Sub & s, uint32_t, uint32_t, uint32_t )
							{
								accessImage( s, VK_PIPELINE_STAGE_TRANSFER_BIT, write ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT, write, opName( c.op ), "image" );
								if ( write ) s.content = toks.empty() ? 0 : toks[std::min( i, toks.size() - 1 )];
								else toks.push_back( s.content );
								++i;
							} );
						};
						if ( b2i ) { doBuf( false ); doImg( true ); }
						else { doImg( false ); doBuf( true ); }
					}
					break;
				}
			case Op::FillBuf:
				if ( auto b = alive( c.a, T::Buffer, "FillBuffer" ) )
				{
					auto size = c.offs[1];
					bufRange( *b, c.offs[0], size, "fill", size != VK_WHOLE_SIZE );
					if ( c.offs[0] % 4 || ( size != VK_WHOLE_SIZE && size % 4 ) ) viol( "bounds", "fill-alignment", "a buffer fill is not made of whole words" );
					forGran( *b, c.offs[0], size, [&]( size_t g )
					{
						accessCell( b->granSync[g], VK_PIPELINE_STAGE_TRANSFER_BIT, VK_ACCESS_TRANSFER_WRITE_BIT, true, "a fill command", "buffer" );
						b->granContent[g] = fillToken( c.n[0] );
					} );
				}
				break;
			case Op::LabelBegin:
				if ( !c.n[0] ) e.labels.push_back( c.text );
				break;
			case Op::LabelEnd:
				if ( !c.n[0] && !e.labels.empty() ) e.labels.pop_back();
				break;
			case Op::Marker:
				if ( onMarker ) onMarker( e, c );
				break;
			case Op::Other:
				break;
			}
			clock += c.op == Op::WriteTS ? 0 : cmdTicks;
			if ( onCmd && c.op != Op::Marker )
				onCmd( e, c );
		}
	}

	VkObjectType objectType( T t )
	{
		switch ( t )
		{
		case T::Buffer: return VK_OBJECT_TYPE_BUFFER;
		case T::Image: return VK_OBJECT_TYPE_IMAGE;
		case T::ImageView: return VK_OBJECT_TYPE_IMAGE_VIEW;
		case T::BufferView: return VK_OBJECT_TYPE_BUFFER_VIEW;
		case T::Memory: return VK_OBJECT_TYPE_DEVICE_MEMORY;
		case T::Sampler: return VK_OBJECT_TYPE_SAMPLER;
		case T::Pipeline: return VK_OBJECT_TYPE_PIPELINE;
		case T::PipelineLayout: return VK_OBJECT_TYPE_PIPELINE_LAYOUT;
		case T::DSLayout: return VK_OBJECT_TYPE_DESCRIPTOR_SET_LAYOUT;
		case T::DPool: return VK_OBJECT_TYPE_DESCRIPTOR_POOL;
		case T::DSet: return VK_OBJECT_TYPE_DESCRIPTOR_SET;
		case T::RenderPass: return VK_OBJECT_TYPE_RENDER_PASS;
		case T::Framebuffer: return VK_OBJECT_TYPE_FRAMEBUFFER;
		case T::CmdPool: return VK_OBJECT_TYPE_COMMAND_POOL;
		case T::CmdBuf: return VK_OBJECT_TYPE_COMMAND_BUFFER;
		case T::Semaphore: return VK_OBJECT_TYPE_SEMAPHORE;
		case T::Fence: return VK_OBJECT_TYPE_FENCE;
		case T::Event: return VK_OBJECT_TYPE_EVENT;
		case T::QueryPool: return VK_OBJECT_TYPE_QUERY_POOL;
		case T::ShaderModule: return VK_OBJECT_TYPE_SHADER_MODULE;
		default: return VK_OBJECT_TYPE_UNKNOWN;
		}
	}

	std::string captureStderr( std::function< void() > const & f )
	{
		fflush( stderr );
		int saved = dup( 2 );
		int fd = memfd_create( "stderr", 0 );
		dup2( fd, 2 );
		f();
		fflush( stderr );
		dup2( saved, 2 );
		close( saved );
		std::string r;
		char b[4096];
		lseek( fd, 0, SEEK_SET );
		for ( ssize_t n; ( n = read( fd, b, sizeof( b ) ) ) > 0; ) r.append( b, size_t( n ) );
		close( fd );
		return r;
	}

	// The name of an object is given while it exists, with its type.
	void Driver::named( uint64_t h, uint64_t type, char const * name )
	{
		++namesChecked;
		if ( lastName.size() < 4 ) lastName.emplace_back( h, name ? name : "" );
		auto it = objs.find( h );
		if ( it == objs.end() || !it->second->alive )
			viol( "debug", "names-dead", "the name " + std::string( name ? name : "(null)" ) + " is given to " + ( it == objs.end() ? "no object" : "the destroyed " + describe( h ) ) );
		else if ( type != uint64_t( objectType( it->second->type ) ) )
			viol( "debug", "names-type", "the name " + std::string( name ? name : "(null)" ) + " is given to " + describe( h ) + " as object type " + std::to_string( type ) );
		if ( !name ) viol( "debug", "names-null", "a null name is given to " + describe( h ) );
	}

	// Trace messages tell which objects the library keeps in its list of allocated objects.
	static std::string logTypeName( T t )
	{
		return t == T::Memory ? "DeviceMemory" : typeName( t );
	}

	void Driver::log( int level, std::string const & msg, bool newLine )
	{
		if ( !watchLog ) return;
		if ( lastLogs.size() < 4 ) lastLogs.emplace_back( level, msg, newLine );
		if ( level == 4 ) errors.push_back( msg );
		if ( level ) return;
		bool made = msg.rfind( "Created ", 0 ) == 0, gone = msg.rfind( "Destroyed ", 0 ) == 0;
		if ( !made && !gone ) return;
		auto p = msg.find( " [0x" );
		auto q = msg.find( "]", p );
		if ( p == std::string::npos || q == std::string::npos ) return;
		auto type = msg.substr( made ? 8 : 10, p - ( made ? 8 : 10 ) );
		auto h = strtoull( msg.c_str() + p + 4, nullptr, 16 );
		auto name = q + 4 <= msg.size() ? msg.substr( q + 4 ) : std::string{};
		++namesChecked;
		auto it = objs.find( h );
		auto o = it == objs.end() || !it->second->alive ? nullptr : it->second.get();
		if ( !o && ( made || it != objs.end() ) )
			viol( "debug", made ? "created-dead" : "destroyed-dead", "\"" + msg + "\" is logged while the object does not exist" );
		if ( made )
		{
			if ( o && type != std::string( "Vk" ) + logTypeName( o->type ) )
				viol( "debug", "created-type", "\"" + msg + "\" is logged for " + describe( h ) );
			if ( !registered.emplace( h, std::make_pair( type, name ) ).second )
				viol( "debug", "created-twice", "\"" + msg + "\" is logged again" );
		}
		else
		{
			auto r = registered.find( h );
			if ( r == registered.end() )
			{
				if ( o && failAt < 0 && !fallible )
					viol( "debug", "destroyed-unlisted", "\"" + msg + "\" is logged for " + describe( h ) + " which was not listed" );
			}
			else
			{
				if ( r->second != std::make_pair( type, name ) )
					viol( "debug", "destroyed-other", "\"" + msg + "\" is logged for " + r->second.first + " - " + r->second.second );
				registered.erase( r );
			}
		}
	}

	// Called at the destruction of each object.
	void Driver::unlisted( uint64_t h, T t )
	{
		if ( watchLog && registered.erase( h ) )
			viol( "debug", std::string( "still-listed-" ) + typeName( t ), describe( h ) + " is destroyed while the context still lists it as allocated" );
		// The library names each object it creates.
		auto it = objs.find( h );
		if ( watchLog && it != objs.end() && !it->second->external && ++ownNames && !debugNames.count( h ) )
			viol( "debug", std::string( "unnamed-" ) + typeName( t ), describe( h ) + " was never given a name" );
	}

	void Driver::checkLeaks( char const * when )
	{
		std::map< T, std::pair< int, uint64_t > > leaked;
		for ( auto h : order )
		{
			auto & o = *objs[h];
			if ( o.alive && !o.external )
			{
				auto & l = leaked[o.type];
				++l.first;
				l.second = h;
			}
		}
		for ( auto & [t, l] : leaked )
			viol( "leak", std::string( "leak-" ) + typeName( t ), std::to_string( l.first ) + " " + typeName( t ) + " still alive " + when + ", e.g. " + describe( l.second ) );
	}

	//*********************************************************************************************
	// Entry points
	//*********************************************************************************************

#define D ( *g_drv )
	using A = VkAllocationCallbacks const *;

	template< typename H >
	static VkResult mk( T t, H * out, char const * call, std::function< void( Obj & ) > init = {} )
	{
		if ( D.fail( call ) )
			return D.failCode;
		auto & o = D.create( t );
		if ( init ) init( o );
		*out = ( H )o.h;
		if ( D.logCalls ) D.callLog.push_back( call );
		return VK_SUCCESS;
	}

	static RPInfo readRP( VkRenderPassCreateInfo const * ci )
	{
		RPInfo r;
		r.attaches.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount );
		if ( ci->subpassCount )
		{
			auto & s = ci->pSubpasses[0];
			r.colours.assign( s.pColorAttachments, s.pColorAttachments + s.colorAttachmentCount );
			if ( s.pDepthStencilAttachment && s.pDepthStencilAttachment->attachment != VK_ATTACHMENT_UNUSED )
			{
				r.hasDepth = true;
				r.depth = *s.pDepthStencilAttachment;
			}
		}
		r.deps.assign( ci->pDependencies, ci->pDependencies + ci->dependencyCount );
		return r;
	}

	static VkResult vkCreateBuffer_( VkDevice, VkBufferCreateInfo const * ci, A, VkBuffer * out )
	{
		valid::buffer( *ci );
		return mk( T::Buffer, out, "vkCreateBuffer", [&]( Obj & o )
		{
			o.bufCI = *ci;
			o.granContent.assign( size_t( ( ci->size + Granule - 1 ) / Granule ), 0 );
			o.granSync.resize( o.granContent.size() );
			if ( !ci->size ) D.viol( "bounds", "buffer-size", "buffer of size 0 created" );
		} );
	}
	static VkResult vkCreateImage_( VkDevice, VkImageCreateInfo const * ci, A, VkImage * out )
	{
		valid::image( *ci );
		return mk( T::Image, out, "vkCreateImage", [&]( Obj & o )
		{
			o.imgCI = *ci;
			o.subs.resize( size_t( D.aspectCount( o ) ) * D.layersOf( o ) * ci->mipLevels );
			for ( auto & s : o.subs ) s.layout = ci->initialLayout;
		} );
	}
	static VkResult vkCreateImageView_( VkDevice, VkImageViewCreateInfo const * ci, A, VkImageView * out )
	{
		valid::imageView( *ci, D.find( ci->image, T::Image ) );
		auto img = D.find( ci->image, T::Image );
		if ( !img || !img->alive )
			D.viol( "lifetime", "view-of-dead-image", "image view created on an image which does not exist" );
		else
		{
			if ( !img->bound )
				D.viol( "lifetime", "view-of-unbound-image", "image view created on an image without memory" );
			auto & r = ci->subresourceRange;
			if ( r.baseMipLevel + ( r.levelCount == VK_REMAINING_MIP_LEVELS ? 1 : r.levelCount ) > img->imgCI.mipLevels
				|| ( img->imgCI.imageType != VK_IMAGE_TYPE_3D && r.baseArrayLayer + ( r.layerCount == VK_REMAINING_ARRAY_LAYERS ? 1 : r.layerCount ) > img->imgCI.arrayLayers ) )
				D.viol( "bounds", "view-range", "image view created outside of its image" );
		}
		return mk( T::ImageView, out, "vkCreateImageView", [&]( Obj & o )
		{
			o.viewCI = *ci;
			o.parent = ( uint64_t )ci->image;
		} );
	}
	static VkResult vkCreateSampler_( VkDevice, VkSamplerCreateInfo const * ci, A, VkSampler * out )
	{
		valid::sampler( *ci );
		return mk( T::Sampler, out, "vkCreateSampler", [&]( Obj & o ){ o.samplerCI = *ci; } );
	}
	static void vkGetImageMemoryRequirements_( VkDevice, VkImage, VkMemoryRequirements * r )
	{
		++D.calls["vkGetImageMemoryRequirements"];
		*r = { 4096, 256, D.memTypeBits };
	}
	static void vkGetBufferMemoryRequirements_( VkDevice, VkBuffer b, VkMemoryRequirements * r )
	{
		++D.calls["vkGetBufferMemoryRequirements"];
		auto o = D.find( b, T::Buffer );
		*r = { o ? ( ( o->bufCI.size + 255 ) / 256 * 256 ) : 256, 256, D.memTypeBits };
	}
	static VkResult vkAllocateMemory_( VkDevice, VkMemoryAllocateInfo const * ai, A, VkDeviceMemory * out )
	{
		valid::allocate( *ai );
		if ( ai->memoryTypeIndex >= D.memProps.memoryTypeCount )
			D.viol( "bounds", "memory-type", "memory allocated with an invalid type index" );
		return mk( T::Memory, out, "vkAllocateMemory", [&]( Obj & o )
		{
			o.memSize = ai->allocationSize;
			o.memBytes.resize( size_t( ai->allocationSize ) );
			o.name = "type" + std::to_string( ai->memoryTypeIndex );
			o.pipe.cull = ai->memoryTypeIndex;
		} );
	}
	static VkResult vkBindBufferMemory_( VkDevice, VkBuffer b, VkDeviceMemory m, VkDeviceSize off )
	{
		if ( auto bo = D.find( b, T::Buffer ) ) valid::bind( "vkBindBufferMemory", D.find( m, T::Memory ), off, ( bo->bufCI.size + 255 ) / 256 * 256 );
		if ( D.fail( "vkBindBufferMemory" ) ) return D.failCode;
		auto o = D.find( b, T::Buffer );
		auto mo = D.find( m, T::Memory );
		if ( !o || !mo || !o->alive || !mo->alive ) D.viol( "lifetime", "bind-dead", "memory binding of dead objects" );
		else
		{
			if ( o->bound ) D.viol( "lifetime", "bind-twice", "memory bound twice to a buffer" );
			if ( !( D.memTypeBits >> mo->pipe.cull & 1 ) ) D.viol( "bounds", "memory-type", "memory of a type which does not suit the object bound to it" );
			if ( mo->memSize < ( o->type == T::Image ? 4096 : ( o->bufCI.size + 255 ) / 256 * 256 ) ) D.viol( "bounds", "memory-size", "memory too small for the object bound to it" );
			o->bound = true;
			mo->boundTo = o->h;
		}
		return VK_SUCCESS;
	}
	static VkResult vkBindImageMemory_( VkDevice, VkImage b, VkDeviceMemory m, VkDeviceSize off )
	{
		if ( D.find( b, T::Image ) ) valid::bind( "vkBindImageMemory", D.find( m, T::Memory ), off, 4096 );
		if ( D.fail( "vkBindImageMemory" ) ) return D.failCode;
		auto o = D.find( b, T::Image );
		auto mo = D.find( m, T::Memory );
		if ( !o || !mo || !o->alive || !mo->alive ) D.viol( "lifetime", "bind-dead", "memory binding of dead objects" );
		else
		{
			if ( o->bound ) D.viol( "lifetime", "bind-twice", "memory bound twice to an image" );
			if ( !( D.memTypeBits >> mo->pipe.cull & 1 ) ) D.viol( "bounds", "memory-type", "memory of a type which does not suit the object bound to it" );
			if ( mo->memSize < ( o->type == T::Image ? 4096 : ( o->bufCI.size + 255 ) / 256 * 256 ) ) D.viol( "bounds", "memory-size", "memory too small for the object bound to it" );
			o->bound = true;
			mo->boundTo = o->h;
		}
		return VK_SUCCESS;
	}
	static VkResult vkMapMemory_( VkDevice, VkDeviceMemory m, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags flags, void ** p )
	{
		if ( D.fail( "vkMapMemory" ) ) return VK_ERROR_MEMORY_MAP_FAILED;
		auto o = D.find( m, T::Memory );
		if ( !o || !o->alive ) { D.viol( "lifetime", "map-dead", "mapping of dead memory" ); return VK_ERROR_MEMORY_MAP_FAILED; }
		valid::map( *o, off, size, flags );
		if ( o->mapped ) D.viol( "lifetime", "map-twice", "memory mapped twice" );
		if ( size != VK_WHOLE_SIZE && off + size > o->memSize ) D.viol( "bounds", "map-range", "memory mapped outside of its allocation" );
		if ( !( D.memProps.memoryTypes[o->pipe.cull].propertyFlags & VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT ) ) D.viol( "bounds", "map-device-local", "non host visible memory mapped" );
		o->mapped = true;
		*p = o->memBytes.data() + off;
		return VK_SUCCESS;
	}
	static void vkUnmapMemory_( VkDevice, VkDeviceMemory m )
	{
		++D.calls["vkUnmapMemory"];
		auto o = D.find( m, T::Memory );
		if ( !o || !o->mapped ) D.viol( "lifetime", "unmap", "memory unmapped which is not mapped" );
		else
		{
			o->mapped = false;
			if ( auto b = D.get( o->boundTo, T::Buffer ) ) b->bytes = o->memBytes;
		}
	}
	static VkResult vkFlushMappedMemoryRanges_( VkDevice, uint32_t n, VkMappedMemoryRange const * r )
	{
		valid::flush( n, r );
		++D.calls["vkFlushMappedMemoryRanges"];
		return VK_SUCCESS;
	}
	static VkResult vkCreateRenderPass_( VkDevice, VkRenderPassCreateInfo const * ci, A, VkRenderPass * out )
	{
		valid::renderPass( *ci );
		for ( uint32_t i = 0; i < ci->attachmentCount; ++i )
			if ( ci->pAttachments[i].finalLayout == VK_IMAGE_LAYOUT_UNDEFINED )
				D.viol( "layout", "rp-final-undefined", "render pass attachment ends in UNDEFINED layout" );
		for ( uint32_t i = 0; i < ci->attachmentCount; ++i )
			if ( ci->pAttachments[i].initialLayout == VK_IMAGE_LAYOUT_UNDEFINED && ci->pAttachments[i].loadOp == VK_ATTACHMENT_LOAD_OP_LOAD )
				D.viol( "rp", "load-undefined", "render pass loads an attachment whose initial layout is UNDEFINED" );
		return mk( T::RenderPass, out, "vkCreateRenderPass", [&]( Obj & o ){ o.rp = readRP( ci ); } );
	}
	static VkResult vkCreateFramebuffer_( VkDevice, VkFramebufferCreateInfo const * ci, A, VkFramebuffer * out )
	{
		valid::framebuffer( *ci, D.find( ci->renderPass, T::RenderPass ) );
		auto rp = D.find( ci->renderPass, T::RenderPass );
		if ( !rp || !rp->alive ) D.viol( "lifetime", "fb-dead-renderpass", "framebuffer created for a dead render pass" );
		for ( uint32_t i = 0; i < ci->attachmentCount; ++i )
		{
			auto v = D.find( ci->pAttachments[i], T::ImageView );
			if ( !v || !v->alive ) D.viol( "lifetime", "fb-dead-view", "framebuffer created with a dead image view" );
		}
		if ( !ci->width || !ci->height || !ci->layers ) D.viol( "rp", "fb-empty", "framebuffer of null size created" );
		return mk( T::Framebuffer, out, "vkCreateFramebuffer", [&]( Obj & o )
		{
			o.fbRP = ( uint64_t )ci->renderPass;
			if ( rp ) o.fbRPCopy = rp->rp;
			o.fbViews.assign( ci->pAttachments, ci->pAttachments + ci->attachmentCount );
			o.fbW = ci->width; o.fbH = ci->height; o.fbL = ci->layers;
		} );
	}
	static VkResult vkCreateDescriptorSetLayout_( VkDevice, VkDescriptorSetLayoutCreateInfo const * ci, A, VkDescriptorSetLayout * out )
	{
		valid::setLayout( *ci );
		std::set< uint32_t > seen;
		for ( uint32_t i = 0; i < ci->bindingCount; ++i )
			if ( !seen.insert( ci->pBindings[i].binding ).second )
				D.viol( "desc", "duplicate-binding", "descriptor set layout with a duplicate binding" );
		return mk( T::DSLayout, out, "vkCreateDescriptorSetLayout", [&]( Obj & o ){ o.bindings.assign( ci->pBindings, ci->pBindings + ci->bindingCount ); } );
	}
	static VkResult vkCreateDescriptorPool_( VkDevice, VkDescriptorPoolCreateInfo const * ci, A, VkDescriptorPool * out )
	{
		valid::descriptorPool( *ci );
		return mk( T::DPool, out, "vkCreateDescriptorPool", [&]( Obj & o )
		{
			o.poolMax = ci->maxSets;
			o.poolFreeBit = ( ci->flags & VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) != 0;
			for ( uint32_t i = 0; i < ci->poolSizeCount; ++i ) o.poolSizes[ci->pPoolSizes[i].type] += ci->pPoolSizes[i].descriptorCount;
		} );
	}
	static VkResult vkAllocateDescriptorSets_( VkDevice, VkDescriptorSetAllocateInfo const * ai, VkDescriptorSet * out )
	{
		valid::allocateSets( *ai );
		if ( D.fail( "vkAllocateDescriptorSets" ) ) { for ( uint32_t i = 0; i < ai->descriptorSetCount; ++i ) out[i] = {}; return D.failCode; }
		auto pool = D.find( ai->descriptorPool, T::DPool );
		if ( !pool || !pool->alive ) { D.viol( "lifetime", "alloc-dead-pool", "descriptor set allocated from a dead pool" ); return VK_ERROR_OUT_OF_POOL_MEMORY; }
		for ( uint32_t i = 0; i < ai->descriptorSetCount; ++i )
		{
			auto l = D.find( ai->pSetLayouts[i], T::DSLayout );
			if ( !l || !l->alive ) D.viol( "lifetime", "alloc-dead-layout", "descriptor set allocated with a dead layout" );
			if ( ++pool->poolUsed > pool->poolMax ) D.viol( "desc", "pool-exhausted", "more descriptor sets allocated than the pool's maximum" );
			if ( l )
				for ( auto & b : l->bindings )
					if ( ( pool->poolSizes[b.descriptorType] -= b.descriptorCount ) < 0 )
						D.viol( "desc", "pool-exhausted", "more descriptors allocated than the pool holds (type " + std::to_string( b.descriptorType ) + ")" );
			auto & o = D.create( T::DSet );
			o.parent = pool->h;
			o.dsLayout = ( uint64_t )ai->pSetLayouts[i];
			out[i] = ( VkDescriptorSet )o.h;
		}
		return VK_SUCCESS;
	}
	static VkResult vkFreeDescriptorSets_( VkDevice, VkDescriptorPool p, uint32_t n, VkDescriptorSet const * s )
	{
		auto pool = D.find( p, T::DPool );
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto o = D.find( s[i], T::DSet );
			if ( pool && !pool->poolFreeBit ) D.viol( "desc", "pool-free", "descriptor set freed from a pool without the free bit" );
			if ( o && pool && o->alive )
			{
				--pool->poolUsed;
				if ( auto l = D.get( o->dsLayout, T::DSLayout ) )
					for ( auto & b : l->bindings ) pool->poolSizes[b.descriptorType] += b.descriptorCount;
			}
			D.destroy( ( uint64_t )s[i], T::DSet, "vkFreeDescriptorSets" );
		}
		return VK_SUCCESS;
	}
	static void vkUpdateDescriptorSets_( VkDevice, uint32_t n, VkWriteDescriptorSet const * w, uint32_t, VkCopyDescriptorSet const * )
	{
		++D.calls["vkUpdateDescriptorSets"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			valid::write( w[i] );
			auto ds = D.find( w[i].dstSet, T::DSet );
			if ( !ds || !ds->alive ) { D.viol( "lifetime", "update-dead-set", "update of a dead descriptor set" ); continue; }
			for ( auto & s : D.submits )
				if ( !s.done && s.objs.count( ds->h ) )
					D.viol( "inflight", "update-inuse-DescriptorSet", "update of a descriptor set used by a pending submission" );
			auto l = D.get( ds->dsLayout, T::DSLayout );
			bool found = false;
			if ( l )
				for ( auto & b : l->bindings )
					if ( b.binding == w[i].dstBinding )
					{
						found = true;
						if ( b.descriptorType != w[i].descriptorType ) D.viol( "desc", "type", "descriptor write of another type than its layout's binding " + std::to_string( b.binding ) );
						if ( w[i].dstArrayElement + w[i].descriptorCount > b.descriptorCount ) D.viol( "desc", "count", "descriptor write of more elements than its binding holds" );
					}
			if ( !found ) D.viol( "desc", "binding", "descriptor write to a binding its layout does not have: " + std::to_string( w[i].dstBinding ) );
			auto & ws = ds->writes[w[i].dstBinding];
			if ( ws.size() < w[i].dstArrayElement + w[i].descriptorCount ) ws.resize( w[i].dstArrayElement + w[i].descriptorCount );
			for ( uint32_t k = 0; k < w[i].descriptorCount; ++k )
			{
				auto & x = ws[w[i].dstArrayElement + k];
				x = {};
				x.type = w[i].descriptorType;
				x.element = w[i].dstArrayElement + k;
				switch ( w[i].descriptorType )
				{
				case VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER: case VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER:
					if ( !w[i].pTexelBufferView ) D.viol( "desc", "null-info", "texel buffer descriptor without view" );
					else x.texel = w[i].pTexelBufferView[k];
					break;
				case VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER: case VK_DESCRIPTOR_TYPE_STORAGE_BUFFER: case VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER_DYNAMIC: case VK_DESCRIPTOR_TYPE_STORAGE_BUFFER_DYNAMIC:
					if ( !w[i].pBufferInfo ) D.viol( "desc", "null-info", "buffer descriptor without info" );
					else x.buf = w[i].pBufferInfo[k];
					break;
				default:
					if ( !w[i].pImageInfo ) D.viol( "desc", "null-info", "image descriptor without info" );
					else x.img = w[i].pImageInfo[k];
					break;
				}
			}
		}
	}
	static VkResult vkCreatePipelineLayout_( VkDevice, VkPipelineLayoutCreateInfo const * ci, A, VkPipelineLayout * out )
	{
		valid::pipelineLayout( *ci );
		for ( uint32_t i = 0; i < ci->setLayoutCount; ++i )
		{
			auto l = D.find( ci->pSetLayouts[i], T::DSLayout );
			if ( !l || !l->alive ) D.viol( "lifetime", "layout-dead-setlayout", "pipeline layout created with a dead descriptor set layout" );
		}
		return mk( T::PipelineLayout, out, "vkCreatePipelineLayout", [&]( Obj & o )
		{
			o.setLayouts.assign( ci->pSetLayouts, ci->pSetLayouts + ci->setLayoutCount );
			o.pushRanges.assign( ci->pPushConstantRanges, ci->pPushConstantRanges + ci->pushConstantRangeCount );
		} );
	}
	static void checkStages( uint32_t n, VkPipelineShaderStageCreateInfo const * s, PipeInfo & p )
	{
		if ( !n ) D.viol( "pipe", "no-stage", "pipeline created without shader stage" );
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto m = D.find( s[i].module, T::ShaderModule );
			if ( !m || !m->alive ) D.viol( "pipe", "dead-module", "pipeline created with a dead shader module" );
			p.modules.push_back( s[i].module );
			p.entries.push_back( s[i].pName ? s[i].pName : "" );
		}
	}
	static VkResult vkCreateGraphicsPipelines_( VkDevice, VkPipelineCache, uint32_t n, VkGraphicsPipelineCreateInfo const * ci, A, VkPipeline * out )
	{
		for ( uint32_t i = 0; i < n; ++i )
		{
			valid::graphics( ci[i], D.find( ci[i].renderPass, T::RenderPass ) );
			auto res = mk( T::Pipeline, &out[i], "vkCreateGraphicsPipelines", [&]( Obj & o )
			{
				auto & c = ci[i];
				o.pipe.layout = c.layout;
				o.pipe.rp = c.renderPass;
				checkStages( c.stageCount, c.pStages, o.pipe );
				auto l = D.find( c.layout, T::PipelineLayout );
				if ( !l || !l->alive ) D.viol( "lifetime", "pipeline-dead-layout", "pipeline created with a dead layout" );
				auto rp = D.find( c.renderPass, T::RenderPass );
				if ( !rp || !rp->alive ) D.viol( "lifetime", "pipeline-dead-renderpass", "pipeline created with a dead render pass" );
				else o.pipe.rpCopy = rp->rp;
				if ( c.pColorBlendState ) o.pipe.blends.assign( c.pColorBlendState->pAttachments, c.pColorBlendState->pAttachments + c.pColorBlendState->attachmentCount );
				if ( c.pViewportState )
				{
					if ( c.pViewportState->pViewports ) o.pipe.viewports.assign( c.pViewportState->pViewports, c.pViewportState->pViewports + c.pViewportState->viewportCount );
					if ( c.pViewportState->pScissors ) o.pipe.scissors.assign( c.pViewportState->pScissors, c.pViewportState->pScissors + c.pViewportState->scissorCount );
				}
				if ( c.pInputAssemblyState ) o.pipe.topology = c.pInputAssemblyState->topology;
				if ( c.pRasterizationState ) o.pipe.cull = c.pRasterizationState->cullMode;
				if ( c.pDepthStencilState ) { o.pipe.ds = *c.pDepthStencilState; o.pipe.hasDS = true; }
				if ( c.pMultisampleState ) o.pipe.samples = c.pMultisampleState->rasterizationSamples;
				if ( c.pVertexInputState )
				{
					o.pipe.viBindings.assign( c.pVertexInputState->pVertexBindingDescriptions, c.pVertexInputState->pVertexBindingDescriptions + c.pVertexInputState->vertexBindingDescriptionCount );
					o.pipe.viAttribs.assign( c.pVertexInputState->pVertexAttributeDescriptions, c.pVertexInputState->pVertexAttributeDescriptions + c.pVertexInputState->vertexAttributeDescriptionCount );
				}
			} );
			if ( res != VK_SUCCESS ) { out[i] = {}; return res; }
		}
		return VK_SUCCESS;
	}
	static VkResult vkCreateComputePipelines_( VkDevice, VkPipelineCache, uint32_t n, VkComputePipelineCreateInfo const * ci, A, VkPipeline * out )
	{
		for ( uint32_t i = 0; i < n; ++i )
		{
			valid::compute( ci[i] );
			auto res = mk( T::Pipeline, &out[i], "vkCreateComputePipelines", [&]( Obj & o )
			{
				o.pipe.compute = true;
				o.pipe.layout = ci[i].layout;
				checkStages( 1, &ci[i].stage, o.pipe );
				auto l = D.find( ci[i].layout, T::PipelineLayout );
				if ( !l || !l->alive ) D.viol( "lifetime", "pipeline-dead-layout", "pipeline created with a dead layout" );
			} );
			if ( res != VK_SUCCESS ) { out[i] = {}; return res; }
		}
		return VK_SUCCESS;
	}
	static VkResult vkCreateCommandPool_( VkDevice, VkCommandPoolCreateInfo const * ci, A, VkCommandPool * out )
	{
		valid::commandPool( *ci );
		return mk( T::CmdPool, out, "vkCreateCommandPool", [&]( Obj & o ){ o.createFlags = ci->flags; } );
	}
	static VkResult vkAllocateCommandBuffers_( VkDevice, VkCommandBufferAllocateInfo const * ai, VkCommandBuffer * out )
	{
		valid::allocateCommandBuffers( *ai );
		if ( D.fail( "vkAllocateCommandBuffers" ) ) { for ( uint32_t i = 0; i < ai->commandBufferCount; ++i ) out[i] = {}; return D.failCode; }
		auto pool = D.find( ai->commandPool, T::CmdPool );
		if ( !pool || !pool->alive ) D.viol( "lifetime", "alloc-dead-pool", "command buffer allocated from a dead pool" );
		for ( uint32_t i = 0; i < ai->commandBufferCount; ++i )
		{
			auto & o = D.create( T::CmdBuf );
			o.parent = ( uint64_t )ai->commandPool;
			out[i] = ( VkCommandBuffer )o.h;
		}
		return VK_SUCCESS;
	}
	static void vkFreeCommandBuffers_( VkDevice, VkCommandPool p, uint32_t n, VkCommandBuffer const * cbs )
	{
		auto pool = D.find( p, T::CmdPool );
		if ( !pool || !pool->alive ) D.viol( "lifetime", "free-dead-pool", "command buffer freed from a dead pool" );
		for ( uint32_t i = 0; i < n; ++i )
			D.destroy( ( uint64_t )cbs[i], T::CmdBuf, "vkFreeCommandBuffers" );
	}
	static VkResult vkCreateSemaphore_( VkDevice, VkSemaphoreCreateInfo const * ci, A, VkSemaphore * out ) { valid::simple( "vkCreateSemaphore", VK_STRUCTURE_TYPE_SEMAPHORE_CREATE_INFO, ci->sType, ci->pNext, ci->flags, 0 ); return mk( T::Semaphore, out, "vkCreateSemaphore" ); }
	static VkResult vkCreateEvent_( VkDevice, VkEventCreateInfo const * ci, A, VkEvent * out ) { valid::simple( "vkCreateEvent", VK_STRUCTURE_TYPE_EVENT_CREATE_INFO, ci->sType, ci->pNext, ci->flags, 0 ); return mk( T::Event, out, "vkCreateEvent" ); }
	static VkResult vkCreateFence_( VkDevice, VkFenceCreateInfo const * ci, A, VkFence * out )
	{
		valid::simple( "vkCreateFence", VK_STRUCTURE_TYPE_FENCE_CREATE_INFO, ci->sType, ci->pNext, ci->flags, VK_FENCE_CREATE_SIGNALED_BIT );
		return mk( T::Fence, out, "vkCreateFence", [&]( Obj & o ){ o.signaled = ( ci->flags & VK_FENCE_CREATE_SIGNALED_BIT ) != 0; } );
	}
	static VkResult vkCreateQueryPool_( VkDevice, VkQueryPoolCreateInfo const * ci, A, VkQueryPool * out )
	{
		valid::queryPool( *ci );
		return mk( T::QueryPool, out, "vkCreateQueryPool", [&]( Obj & o )
		{
			o.queryCount = ci->queryCount;
			o.queryState.resize( ci->queryCount );
			o.queryValue.resize( ci->queryCount );
		} );
	}
	static VkResult vkGetQueryPoolResults_( VkDevice, VkQueryPool p, uint32_t first, uint32_t count, size_t size, void * data, VkDeviceSize stride, VkQueryResultFlags flags )
	{
		valid::queryResults( count, size, data, stride, flags );
		++D.calls["vkGetQueryPoolResults"];
		auto q = D.find( p, T::QueryPool );
		if ( !q || !q->alive ) { D.viol( "lifetime", "query-dead", "results of a dead query pool" ); return VK_ERROR_DEVICE_LOST; }
		if ( first + count > q->queryCount ) { D.viol( "query", "range", "results requested outside of the query pool" ); return VK_ERROR_DEVICE_LOST; }
		VkResult r = VK_SUCCESS;
		bool b64 = ( flags & VK_QUERY_RESULT_64_BIT ) != 0;
		size_t es = b64 ? 8 : 4;
		if ( ( count - 1 ) * stride + es > size ) { D.viol( "query", "data-size", "query results do not fit in the given storage" ); return VK_ERROR_DEVICE_LOST; }
		for ( uint32_t i = 0; i < count; ++i )
		{
			if ( q->queryState[first + i] != 2 )
			{
				if ( flags & VK_QUERY_RESULT_WAIT_BIT )
					D.viol( "query", "wait-unavailable", "results awaited of a timestamp which was never written: the call would never return" );
				r = VK_NOT_READY;
				continue;
			}
			char * dst = ( char * )data + i * stride;
			if ( b64 ) memcpy( dst, &q->queryValue[first + i], 8 );
			else { uint32_t v = uint32_t( q->queryValue[first + i] ); memcpy( dst, &v, 4 ); }
		}
		return r;
	}
	static bool cbPending( uint64_t h )
	{
		for ( auto & s : D.submits )
			if ( !s.done && s.objs.count( h ) )
				return true;
		return false;
	}
	static VkResult vkBeginCommandBuffer_( VkCommandBuffer cb, VkCommandBufferBeginInfo const * bi )
	{
		if ( D.fail( "vkBeginCommandBuffer" ) ) return D.failCode;
		auto o = D.find( cb, T::CmdBuf );
		if ( !o || !o->alive ) { D.viol( "lifetime", "begin-dead", "recording begun on a dead command buffer" ); return VK_ERROR_DEVICE_LOST; }
		valid::begin( *o, *bi );
		if ( o->cbState == 1 ) D.viol( "struct", "begin-recording", "recording begun twice" );
		if ( cbPending( o->h ) ) D.viol( "inflight", "rerecord-inuse", "a command buffer is recorded anew while its previous submission is pending" );
		o->cbState = 1;
		o->cmds.clear();
		++o->cbGen;
		++o->recordCount;
		o->cbUsage = bi->flags;
		return VK_SUCCESS;
	}
	static VkResult vkEndCommandBuffer_( VkCommandBuffer cb )
	{
		if ( D.fail( "vkEndCommandBuffer" ) ) return D.failCode;
		auto o = D.find( cb, T::CmdBuf );
		if ( !o || !o->alive ) { D.viol( "lifetime", "end-dead", "recording ended on a dead command buffer" ); return VK_ERROR_DEVICE_LOST; }
		if ( o->cbState != 1 ) D.viol( "struct", "end-not-recording", "recording ended which was not begun" );
		o->cbState = 2;
		valid::cmdBuffer( *o );
		D.structureCheck( *o );
		return VK_SUCCESS;
	}
	static VkResult vkResetCommandBuffer_( VkCommandBuffer cb, VkCommandBufferResetFlags flags )
	{
		if ( D.fail( "vkResetCommandBuffer" ) ) return D.failCode;
		auto o = D.find( cb, T::CmdBuf );
		if ( !o || !o->alive ) { D.viol( "lifetime", "reset-dead", "reset of a dead command buffer" ); return VK_ERROR_DEVICE_LOST; }
		valid::resetCb( *o, flags );
		if ( cbPending( o->h ) ) D.viol( "inflight", "reset-inuse", "a command buffer is reset while its previous submission is pending" );
		o->cbState = 0;
		o->cmds.clear();
		return VK_SUCCESS;
	}
	static VkResult vkQueueSubmit_( VkQueue queue, uint32_t n, VkSubmitInfo const * si, VkFence fence )
	{
		valid::submit( n, si );
		if ( D.fail( "vkQueueSubmit" ) ) return D.failCode;
		auto f = D.find( fence, T::Fence );
		if ( fence )
		{
			if ( !f || !f->alive ) D.viol( "lifetime", "submit-dead-fence", "submission with a dead fence" );
			else if ( f->signaled ) D.viol( "submit", "fence-signaled", "submission with a fence which is already signalled" );
			else if ( f->fenceSubmit )
			{
				for ( auto & s : D.submits )
					if ( s.id == f->fenceSubmit && !s.done )
						D.viol( "submit", "fence-inuse", "submission with a fence used by a pending submission" );
			}
		}
		for ( uint32_t i = 0; i < n; ++i )
		{
			Submit s;
			s.id = D.nextSubmit++;
			s.fence = fence;
			s.queue = queue;
			s.waits.assign( si[i].pWaitSemaphores, si[i].pWaitSemaphores + si[i].waitSemaphoreCount );
			s.waitStages.assign( si[i].pWaitDstStageMask, si[i].pWaitDstStageMask + si[i].waitSemaphoreCount );
			s.signals.assign( si[i].pSignalSemaphores, si[i].pSignalSemaphores + si[i].signalSemaphoreCount );
			for ( auto w : s.waits )
			{
				auto o = D.find( w, T::Semaphore );
				if ( !o || !o->alive ) D.viol( "lifetime", "submit-dead-semaphore", "submission waits for a dead semaphore" );
				else
				{
					if ( !o->signaled ) D.viol( "submit", "wait-unsignaled", "submission waits for a semaphore nothing signals (deadlock)" );
					o->signaled = false;
				}
				s.objs.insert( ( uint64_t )w );
			}
			for ( auto w : s.waitStages )
				if ( !w ) D.viol( "submit", "wait-stage-zero", "submission waits with an empty stage mask" );
			for ( uint32_t k = 0; k < si[i].commandBufferCount; ++k )
			{
				auto cb = D.find( si[i].pCommandBuffers[k], T::CmdBuf );
				if ( !cb || !cb->alive ) { D.viol( "lifetime", "submit-dead-cmdbuf", "submission of a dead command buffer" ); continue; }
				if ( cb->cbState != 2 ) { D.viol( "submit", "cmdbuf-not-executable", "submission of a command buffer which is not executable" ); continue; }
				if ( cbPending( cb->h ) && !( cb->cbUsage & VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ) ) D.viol( "inflight", "resubmit-inuse", "submission of a command buffer which is still pending" );
				s.cbs.push_back( cb->h );
				if ( D.logStream ) D.logCmds( *cb );
				D.collectObjects( *cb, s.objs );
				D.replay( *cb );
				if ( cb->cbUsage & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT ) cb->cbState = 3;
			}
			for ( auto w : s.signals )
			{
				auto o = D.find( w, T::Semaphore );
				if ( !o || !o->alive ) D.viol( "lifetime", "submit-dead-semaphore", "submission signals a dead semaphore" );
				else
				{
					if ( o->signaled ) D.viol( "submit", "signal-signaled", "submission signals a semaphore which is already signalled" );
					o->signaled = true;
				}
				s.objs.insert( ( uint64_t )w );
			}
			if ( f ) { f->fenceSubmit = s.id; s.objs.insert( f->h ); }
			if ( D.logStream )
			{
				std::string l = "vkQueueSubmit q" + std::to_string( ( uint64_t )s.queue );
				for ( size_t k = 0; k < s.waits.size(); ++k ) l += " wait " + D.rank( ( uint64_t )s.waits[k] ) + "@" + std::to_string( s.waitStages[k] );
				for ( auto c : s.cbs ) l += " cb " + D.rank( c );
				for ( auto w : s.signals ) l += " signal " + D.rank( ( uint64_t )w );
				l += " fence " + D.rank( ( uint64_t )s.fence );
				D.stream.push_back( l );
			}
			D.submits.push_back( s );
			if ( D.onSubmit ) D.onSubmit( D.submits.back() );
		}
		return VK_SUCCESS;
	}
	static VkResult vkGetFenceStatus_( VkDevice, VkFence fence )
	{
		auto f = D.find( fence, T::Fence );
		return f && f->signaled ? VK_SUCCESS : VK_NOT_READY;
	}
	static VkResult vkWaitForFences_( VkDevice, uint32_t n, VkFence const * fences, VkBool32, uint64_t timeout )
	{
		valid::fences( "vkWaitForFences", n, fences );
		++D.calls["vkWaitForFences"];
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto f = D.find( fences[i], T::Fence );
			if ( !f || !f->alive ) { D.viol( "lifetime", "wait-dead-fence", "wait on a dead fence" ); continue; }
			if ( f->signaled ) continue;
			bool found = false;
			for ( auto & s : D.submits )
				if ( s.id == f->fenceSubmit && !s.done ) found = true;
			if ( !found )
			{
				D.viol( "submit", "wait-never", "wait on a fence no submission will signal (deadlock)" );
				continue;
			}
			if ( timeout < 3600ull * 1000000000ull ) return VK_TIMEOUT;   // submissions take an hour
			D.complete( f->fenceSubmit );
		}
		return VK_SUCCESS;
	}
	static VkResult vkResetFences_( VkDevice, uint32_t n, VkFence const * fences )
	{
		valid::fences( "vkResetFences", n, fences );
		if ( D.fail( "vkResetFences" ) ) return D.failCode;
		for ( uint32_t i = 0; i < n; ++i )
		{
			auto f = D.find( fences[i], T::Fence );
			if ( !f || !f->alive ) { D.viol( "lifetime", "reset-dead-fence", "reset of a dead fence" ); continue; }
			for ( auto & s : D.submits )
				if ( s.id == f->fenceSubmit && !s.done )
					D.viol( "inflight", "reset-inuse-Fence", "reset of a fence used by a pending submission" );
			f->signaled = false;
		}
		return VK_SUCCESS;
	}

#define DESTROY( Name, Type, VkT )\
	static void vkDestroy##Name##_( VkDevice, VkT h, A ) { D.destroy( ( uint64_t )h, T::Type, "vkDestroy" #Name ); }
	DESTROY( Pipeline, Pipeline, VkPipeline )
	DESTROY( PipelineLayout, PipelineLayout, VkPipelineLayout )
	DESTROY( DescriptorSetLayout, DSLayout, VkDescriptorSetLayout )
	DESTROY( DescriptorPool, DPool, VkDescriptorPool )
	DESTROY( Buffer, Buffer, VkBuffer )
	DESTROY( RenderPass, RenderPass, VkRenderPass )
	DESTROY( Framebuffer, Framebuffer, VkFramebuffer )
	DESTROY( Image, Image, VkImage )
	DESTROY( ImageView, ImageView, VkImageView )
	DESTROY( Sampler, Sampler, VkSampler )
	DESTROY( CommandPool, CmdPool, VkCommandPool )
	DESTROY( Semaphore, Semaphore, VkSemaphore )
	DESTROY( QueryPool, QueryPool, VkQueryPool )
	DESTROY( Event, Event, VkEvent )
	DESTROY( Fence, Fence, VkFence )
	static void vkFreeMemory_( VkDevice, VkDeviceMemory h, A )
	{
		D.destroy( ( uint64_t )h, T::Memory, "vkFreeMemory" );
	}

	static Obj * rec( VkCommandBuffer cb, char const * call )
	{
		++D.calls[call];
		auto o = D.find( cb, T::CmdBuf );
		if ( !o || !o->alive )
		{
			D.viol( "lifetime", "record-dead", std::string( call ) + " on a dead command buffer" );
			return nullptr;
		}
		if ( o->cbState != 1 )
			D.viol( "struct", "not-recording", std::string( call ) + " on a command buffer which is not being recorded" );
		return o;
	}
	static Cmd * add( VkCommandBuffer cb, Op op, char const * call )
	{
		auto o = rec( cb, call );
		if ( !o ) return nullptr;
		o->cmds.emplace_back();
		o->cmds.back().op = op;
		return &o->cmds.back();
	}
#define ADD( op ) auto c = add( cb, Op::op, __func__ ); if ( !c ) return

	static void vkCmdBindPipeline_( VkCommandBuffer cb, VkPipelineBindPoint bp, VkPipeline p )
	{
		ADD( BindPipe ); c->a = ( uint64_t )p; c->bindPoint = bp;
		auto o = D.find( p, T::Pipeline );
		if ( !o || !o->alive ) D.viol( "lifetime", "bind-dead-Pipeline", "a dead pipeline is bound" );
		else if ( o->pipe.compute != ( bp == VK_PIPELINE_BIND_POINT_COMPUTE ) ) D.viol( "pipe", "bindpoint", "pipeline bound at another bind point than its own" );
	}
	static void vkCmdBindDescriptorSets_( VkCommandBuffer cb, VkPipelineBindPoint bp, VkPipelineLayout l, uint32_t first, uint32_t n, VkDescriptorSet const * s, uint32_t nDyn, uint32_t const * )
	{
		if ( nDyn ) D.viol( "desc", "dynamic-offsets", "dynamic offsets are given for sets without dynamic descriptors" );
		ADD( BindSets ); c->bindPoint = bp; c->a = ( uint64_t )l; c->n = { first };
		for ( uint32_t i = 0; i < n; ++i ) c->handles.push_back( ( uint64_t )s[i] );
		auto o = D.find( l, T::PipelineLayout );
		if ( !o || !o->alive ) D.viol( "lifetime", "bind-dead-PipelineLayout", "descriptor sets bound with a dead pipeline layout" );
	}
	static void vkCmdBindVertexBuffers_( VkCommandBuffer cb, uint32_t, uint32_t n, VkBuffer const * b, VkDeviceSize const * off )
	{
		ADD( BindVB );
		for ( uint32_t i = 0; i < n; ++i ) { c->handles.push_back( ( uint64_t )b[i] ); c->offs.push_back( off[i] ); }
	}
	static void vkCmdBindIndexBuffer_( VkCommandBuffer cb, VkBuffer b, VkDeviceSize off, VkIndexType t )
	{
		ADD( BindIB ); c->a = ( uint64_t )b; c->offs = { off }; c->n = { uint32_t( t ) };
	}
	static void vkCmdClearColorImage_( VkCommandBuffer cb, VkImage i, VkImageLayout l, VkClearColorValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		ADD( ClearColor ); c->a = ( uint64_t )i; c->la = l; c->clears.resize( 1 ); c->clears[0].color = *v; c->ranges.assign( r, r + n );
	}
	static void vkCmdClearDepthStencilImage_( VkCommandBuffer cb, VkImage i, VkImageLayout l, VkClearDepthStencilValue const * v, uint32_t n, VkImageSubresourceRange const * r )
	{
		ADD( ClearDS ); c->a = ( uint64_t )i; c->la = l; c->clears.resize( 1 ); c->clears[0].depthStencil = *v; c->ranges.assign( r, r + n );
	}
	static void vkCmdDispatch_( VkCommandBuffer cb, uint32_t x, uint32_t y, uint32_t z ) { ADD( Dispatch ); c->n = { x, y, z }; }
	static void vkCmdDispatchIndirect_( VkCommandBuffer cb, VkBuffer b, VkDeviceSize off ) { ADD( DispatchIndirect ); c->a = ( uint64_t )b; c->offs = { off }; }
	static void vkCmdDraw_( VkCommandBuffer cb, uint32_t v, uint32_t i, uint32_t fv, uint32_t fi ) { ADD( Draw ); c->n = { v, i, fv, fi }; }
	static void vkCmdDrawIndexed_( VkCommandBuffer cb, uint32_t v, uint32_t i, uint32_t fv, int32_t vo, uint32_t fi ) { ADD( DrawIndexed ); c->n = { v, i, fv, uint32_t( vo ), fi }; }
	static void vkCmdDrawIndirect_( VkCommandBuffer cb, VkBuffer b, VkDeviceSize off, uint32_t n, uint32_t stride ) { ADD( DrawIndirect ); c->a = ( uint64_t )b; c->offs = { off }; c->n = { n, stride }; }
	static void vkCmdDrawIndexedIndirect_( VkCommandBuffer cb, VkBuffer b, VkDeviceSize off, uint32_t n, uint32_t stride ) { ADD( DrawIndexedIndirect ); c->a = ( uint64_t )b; c->offs = { off }; c->n = { n, stride }; }
	static void vkCmdBeginRenderPass_( VkCommandBuffer cb, VkRenderPassBeginInfo const * bi, VkSubpassContents sc )
	{
		ADD( BeginRP ); c->a = ( uint64_t )bi->renderPass; c->b = ( uint64_t )bi->framebuffer; c->area = bi->renderArea; c->n = { uint32_t( sc ) };
		c->clears.assign( bi->pClearValues, bi->pClearValues + bi->clearValueCount );
		auto o = D.find( bi->renderPass, T::RenderPass );
		if ( !o || !o->alive ) D.viol( "lifetime", "begin-dead-RenderPass", "a dead render pass is begun" );
		auto f = D.find( bi->framebuffer, T::Framebuffer );
		if ( !f || !f->alive ) D.viol( "lifetime", "begin-dead-Framebuffer", "a render pass is begun on a dead framebuffer" );
	}
	static void vkCmdEndRenderPass_( VkCommandBuffer cb ) { ADD( EndRP ); }
	static void vkCmdPushConstants_( VkCommandBuffer cb, VkPipelineLayout l, VkShaderStageFlags st, uint32_t off, uint32_t size, void const * data )
	{
		ADD( Push ); c->a = ( uint64_t )l; c->n = { st, off, size };
		c->text.assign( ( char const * )data, size );
		auto o = D.find( l, T::PipelineLayout );
		if ( !o ) { D.viol( "lifetime", "push-dead", "push constants with a dead layout" ); return; }
		bool ok = false;
		for ( auto & r : o->pushRanges )
			if ( ( r.stageFlags & st ) == st && off >= r.offset && off + size <= r.offset + r.size ) ok = true;
		if ( !ok ) D.viol( "pipe", "push-range", "push constants outside of the pipeline layout's ranges" );
	}
	static void vkCmdResetQueryPool_( VkCommandBuffer cb, VkQueryPool p, uint32_t f, uint32_t n ) { ADD( ResetQuery ); c->a = ( uint64_t )p; c->n = { f, n }; }
	static void vkCmdWriteTimestamp_( VkCommandBuffer cb, VkPipelineStageFlagBits st, VkQueryPool p, uint32_t q ) { ADD( WriteTS ); c->a = ( uint64_t )p; c->n = { q, uint32_t( st ) }; }
	static void vkCmdPipelineBarrier_( VkCommandBuffer cb, VkPipelineStageFlags s, VkPipelineStageFlags d, VkDependencyFlags df, uint32_t nm, VkMemoryBarrier const * m, uint32_t nb, VkBufferMemoryBarrier const * b, uint32_t ni, VkImageMemoryBarrier const * i )
	{
		ADD( Barrier ); c->src = s; c->dst = d; c->n = { df };
		c->memB.assign( m, m + nm ); c->bufB.assign( b, b + nb ); c->imgB.assign( i, i + ni );
	}
	static void vkCmdBlitImage_( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageBlit const * r, VkFilter f )
	{
		ADD( Blit ); c->a = ( uint64_t )s; c->la = sl; c->b = ( uint64_t )d; c->lb = dl; c->blits.assign( r, r + n ); c->filter = f;
	}
	static void vkCmdCopyBuffer_( VkCommandBuffer cb, VkBuffer s, VkBuffer d, uint32_t n, VkBufferCopy const * r )
	{
		ADD( CopyBuf ); c->a = ( uint64_t )s; c->b = ( uint64_t )d; c->bcopies.assign( r, r + n );
	}
	static void vkCmdCopyBufferToImage_( VkCommandBuffer cb, VkBuffer s, VkImage d, VkImageLayout l, uint32_t n, VkBufferImageCopy const * r )
	{
		ADD( CopyB2I ); c->a = ( uint64_t )s; c->b = ( uint64_t )d; c->la = l; c->bicopies.assign( r, r + n );
	}
	static void vkCmdCopyImage_( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkImage d, VkImageLayout dl, uint32_t n, VkImageCopy const * r )
	{
		ADD( CopyImg ); c->a = ( uint64_t )s; c->la = sl; c->b = ( uint64_t )d; c->lb = dl; c->icopies.assign( r, r + n );
	}
	static void vkCmdCopyImageToBuffer_( VkCommandBuffer cb, VkImage s, VkImageLayout sl, VkBuffer d, uint32_t n, VkBufferImageCopy const * r )
	{
		ADD( CopyI2B ); c->a = ( uint64_t )s; c->la = sl; c->b = ( uint64_t )d; c->bicopies.assign( r, r + n );
	}
	static void vkCmdFillBuffer_( VkCommandBuffer cb, VkBuffer b, VkDeviceSize off, VkDeviceSize size, uint32_t data )
	{
		ADD( FillBuf ); c->a = ( uint64_t )b; c->offs = { off, size }; c->n = { data };
	}
	static VkResult vkSetDebugUtilsObjectNameEXT_( VkDevice, VkDebugUtilsObjectNameInfoEXT const * ni )
	{
		++D.calls["vkSetDebugUtilsObjectNameEXT"];
		if ( D.watchLog ) D.named( ni->objectHandle, uint64_t( ni->objectType ), ni->pObjectName );
		D.debugNames[ni->objectHandle] = ni->pObjectName ? ni->pObjectName : "";
		if ( D.logStream && !D.logKinds ) D.stream.push_back( "name " + D.rank( ni->objectHandle ) + " " + D.debugNames[ni->objectHandle] );
		return VK_SUCCESS;
	}
	static void vkCmdBeginDebugUtilsLabelEXT_( VkCommandBuffer cb, VkDebugUtilsLabelEXT const * l ) { ADD( LabelBegin ); c->text = l->pLabelName; c->n = { 0 }; c->clears.resize( 1 ); memcpy( c->clears[0].color.float32, l->color, 16 ); }
	static void vkCmdEndDebugUtilsLabelEXT_( VkCommandBuffer cb ) { ADD( LabelEnd ); c->n = { 0 }; }
	static void vkCmdDebugMarkerBeginEXT_( VkCommandBuffer cb, VkDebugMarkerMarkerInfoEXT const * l ) { ADD( LabelBegin ); c->text = l->pMarkerName; c->n = { 1 }; c->clears.resize( 1 ); memcpy( c->clears[0].color.float32, l->color, 16 ); }
	static void vkCmdDebugMarkerEndEXT_( VkCommandBuffer cb ) { ADD( LabelEnd ); c->n = { 1 }; }
	static VkResult vkDebugMarkerSetObjectNameEXT_( VkDevice, VkDebugMarkerObjectNameInfoEXT const * ni )
	{
		// the values of both enums are the same for the objects the library makes
		if ( D.watchLog ) D.named( ni->object, uint64_t( ni->objectType ), ni->pObjectName );
		return VK_SUCCESS;
	}

	// The memory the device allocates is not the library's.
	template< auto F > struct Outside;
	template< typename R, typename... P, R ( *F )( P... ) >
	struct Outside< F >
	{
		static R VKAPI_PTR call( P... p )
		{
			OutScope out;
			return F( p... );
		}
	};

	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice, char const * name )
	{
		static std::unordered_map< std::string, PFN_vkVoidFunction > const table = []
		{
			std::unordered_map< std::string, PFN_vkVoidFunction > t;
#define E( n ) t["vk" #n] = reinterpret_cast< PFN_vkVoidFunction >( &Outside< &vk##n##_ >::call )
			E( CreateGraphicsPipelines ); E( CreateComputePipelines ); E( DestroyPipeline ); E( CreatePipelineLayout ); E( DestroyPipelineLayout );
			E( CreateDescriptorSetLayout ); E( DestroyDescriptorSetLayout ); E( CreateDescriptorPool ); E( DestroyDescriptorPool );
			E( AllocateDescriptorSets ); E( FreeDescriptorSets ); E( CreateBuffer ); E( DestroyBuffer ); E( GetBufferMemoryRequirements );
			E( GetImageMemoryRequirements ); E( AllocateMemory ); E( FreeMemory ); E( BindBufferMemory ); E( BindImageMemory ); E( MapMemory );
			E( UnmapMemory ); E( FlushMappedMemoryRanges ); E( CreateRenderPass ); E( DestroyRenderPass ); E( CreateFramebuffer ); E( DestroyFramebuffer );
			E( CreateImage ); E( DestroyImage ); E( CreateImageView ); E( DestroyImageView ); E( CreateSampler ); E( DestroySampler ); E( CreateCommandPool );
			E( DestroyCommandPool ); E( AllocateCommandBuffers ); E( FreeCommandBuffers ); E( CreateSemaphore ); E( DestroySemaphore ); E( UpdateDescriptorSets );
			E( BeginCommandBuffer ); E( EndCommandBuffer ); E( QueueSubmit ); E( CreateQueryPool ); E( DestroyQueryPool ); E( GetQueryPoolResults );
			E( ResetCommandBuffer ); E( CreateEvent ); E( DestroyEvent ); E( CreateFence ); E( DestroyFence ); E( GetFenceStatus ); E( WaitForFences ); E( ResetFences );
			E( CmdBindPipeline ); E( CmdBindDescriptorSets ); E( CmdBindVertexBuffers ); E( CmdBindIndexBuffer ); E( CmdClearColorImage );
			E( CmdClearDepthStencilImage ); E( CmdDispatch ); E( CmdDispatchIndirect ); E( CmdDraw ); E( CmdDrawIndexed ); E( CmdDrawIndexedIndirect );
			E( CmdDrawIndirect ); E( CmdBeginRenderPass ); E( CmdEndRenderPass ); E( CmdPushConstants ); E( CmdResetQueryPool ); E( CmdWriteTimestamp );
			E( CmdPipelineBarrier ); E( CmdBlitImage ); E( CmdCopyBuffer ); E( CmdCopyBufferToImage ); E( CmdCopyImage ); E( CmdCopyImageToBuffer );
			E( CmdFillBuffer ); E( SetDebugUtilsObjectNameEXT ); E( CmdBeginDebugUtilsLabelEXT ); E( CmdEndDebugUtilsLabelEXT );
			E( CmdDebugMarkerBeginEXT ); E( CmdDebugMarkerEndEXT ); E( DebugMarkerSetObjectNameEXT );
#undef E
			return t;
		}();
		auto it = table.find( name );
		return it == table.end() ? nullptr : it->second;
	}
}
