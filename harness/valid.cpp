// Every call the library makes to the device, judged by the rules of the Vulkan specification which bind
// the caller ("valid usage"), as far as the arguments of one call and the objects it names decide them.
// Rules other categories of the mock driver already watch (bounds, layouts, lifetimes...) are not repeated.
#include "mock.hpp"
#include "valid.hpp"

#include <algorithm>
#include <cmath>

namespace mon::valid
{
#define D ( *g_drv )

	static void bad( std::string const & sig, std::string const & msg )
	{
		D.viol( "valid", sig, msg );
	}

	static void rule( bool ok, char const * call, char const * sig, std::string const & msg )
	{
		++D.rulesChecked;
		if ( !ok )
			bad( std::string( call ) + ":" + sig, std::string( call ) + ": " + msg );
	}

#define RULE( cond, sig, msg ) rule( ( cond ), call, sig, msg )

	// head of an info structure
	template< typename S >
	static void head( char const * call, S const & s, VkStructureType t, char const * name )
	{
		RULE( s.sType == t, "sType", std::string( name ) + " has structure type " + std::to_string( s.sType ) );
		RULE( s.pNext == nullptr, "pNext", std::string( name ) + " has an extension chain no extension was enabled for" );
	}
	template< typename P >
	static void arr( char const * call, uint32_t n, P const * p, char const * name )
	{
		RULE( n == 0 || p != nullptr, "array", std::string( name ) + " counts " + std::to_string( n ) + " elements but is null" );
	}
	static std::string n( uint64_t v ) { return std::to_string( v ); }

	static bool oneBit( uint64_t v ) { return v && !( v & ( v - 1 ) ); }
	static bool isDS( VkFormat f ) { return isDepthFmt( f ) || isStencilFmt( f ); }
	static VkImageAspectFlags aspects( VkFormat f )
	{
		VkImageAspectFlags r{};
		if ( isDepthFmt( f ) ) r |= VK_IMAGE_ASPECT_DEPTH_BIT;
		if ( isStencilFmt( f ) ) r |= VK_IMAGE_ASPECT_STENCIL_BIT;
		return r ? r : VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT );
	}
	static bool depthLayout( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
			return true;
		default:
			return false;
		}
	}
	static bool knownLayout( VkImageLayout l )
	{
		return ( l >= VK_IMAGE_LAYOUT_UNDEFINED && l <= VK_IMAGE_LAYOUT_PREINITIALIZED ) || depthLayout( l )
			|| l == VK_IMAGE_LAYOUT_PRESENT_SRC_KHR || l == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR || l == VK_IMAGE_LAYOUT_SHADING_RATE_OPTIMAL_NV
			|| l == VK_IMAGE_LAYOUT_FRAGMENT_DENSITY_MAP_OPTIMAL_EXT;
	}
	// usage an image needs to be in this layout
	static VkImageUsageFlags usageOf( VkImageLayout l )
	{
		switch ( l )
		{
		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL: return VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT;
		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL: case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
			return VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT;
		case VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL: return VK_IMAGE_USAGE_TRANSFER_SRC_BIT;
		case VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL: return VK_IMAGE_USAGE_TRANSFER_DST_BIT;
		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL: return VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_INPUT_ATTACHMENT_BIT;
		default: return 0;
		}
	}

	// The accesses each stage supports ("Supported access types" of the specification).
	static VkAccessFlags supported( VkPipelineStageFlags s )
	{
		constexpr VkPipelineStageFlags shaders = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT
			| VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT
			| VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT | VK_PIPELINE_STAGE_TASK_SHADER_BIT_NV | VK_PIPELINE_STAGE_MESH_SHADER_BIT_NV | VK_PIPELINE_STAGE_RAY_TRACING_SHADER_BIT_KHR;
		constexpr VkPipelineStageFlags graphics = VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT | VK_PIPELINE_STAGE_VERTEX_INPUT_BIT | VK_PIPELINE_STAGE_VERTEX_SHADER_BIT
			| VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT
			| VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT
			| VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT | VK_PIPELINE_STAGE_TASK_SHADER_BIT_NV | VK_PIPELINE_STAGE_MESH_SHADER_BIT_NV
			| VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV | VK_PIPELINE_STAGE_FRAGMENT_DENSITY_PROCESS_BIT_EXT | VK_PIPELINE_STAGE_TRANSFORM_FEEDBACK_BIT_EXT
			| VK_PIPELINE_STAGE_CONDITIONAL_RENDERING_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) return ~VkAccessFlags( 0 );
		if ( s & VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) s |= graphics;
		VkAccessFlags r = VK_ACCESS_MEMORY_READ_BIT | VK_ACCESS_MEMORY_WRITE_BIT;
		if ( s & VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT ) r |= VK_ACCESS_INDIRECT_COMMAND_READ_BIT | VK_ACCESS_TRANSFORM_FEEDBACK_COUNTER_READ_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ) r |= VK_ACCESS_INDEX_READ_BIT | VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT;
		if ( s & shaders ) r |= VK_ACCESS_UNIFORM_READ_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_ACCELERATION_STRUCTURE_READ_BIT_KHR;
		if ( s & VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT ) r |= VK_ACCESS_INPUT_ATTACHMENT_READ_BIT;
		if ( s & ( VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ) ) r |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
		if ( s & VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT ) r |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_READ_NONCOHERENT_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_TRANSFER_BIT ) r |= VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
		if ( s & VK_PIPELINE_STAGE_HOST_BIT ) r |= VK_ACCESS_HOST_READ_BIT | VK_ACCESS_HOST_WRITE_BIT;
		if ( s & VK_PIPELINE_STAGE_TRANSFORM_FEEDBACK_BIT_EXT ) r |= VK_ACCESS_TRANSFORM_FEEDBACK_WRITE_BIT_EXT | VK_ACCESS_TRANSFORM_FEEDBACK_COUNTER_WRITE_BIT_EXT | VK_ACCESS_TRANSFORM_FEEDBACK_COUNTER_READ_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_CONDITIONAL_RENDERING_BIT_EXT ) r |= VK_ACCESS_CONDITIONAL_RENDERING_READ_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV ) r |= VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV;
		if ( s & VK_PIPELINE_STAGE_FRAGMENT_DENSITY_PROCESS_BIT_EXT ) r |= VK_ACCESS_FRAGMENT_DENSITY_MAP_READ_BIT_EXT;
		if ( s & VK_PIPELINE_STAGE_ACCELERATION_STRUCTURE_BUILD_BIT_KHR ) r |= VK_ACCESS_ACCELERATION_STRUCTURE_READ_BIT_KHR | VK_ACCESS_ACCELERATION_STRUCTURE_WRITE_BIT_KHR
			| VK_ACCESS_INDIRECT_COMMAND_READ_BIT | VK_ACCESS_SHADER_READ_BIT | VK_ACCESS_TRANSFER_READ_BIT | VK_ACCESS_TRANSFER_WRITE_BIT;
		return r;
	}
	static void access( char const * call, char const * sig, VkPipelineStageFlags s, VkAccessFlags a )
	{
		// an empty stage mask is judged elsewhere
		if ( s )
		{
			char t[160];
			snprintf( t, sizeof( t ), "access mask %x holds accesses which none of the stages %x performs", a, s );
			RULE( ( a & ~supported( s ) ) == 0, sig, t );
		}
	}

	void buffer( VkBufferCreateInfo const & c )
	{
		auto call = "vkCreateBuffer";
		head( call, c, VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "sparse or protected buffer asked for" );
		RULE( c.usage != 0, "usage", "no usage" );
		RULE( c.sharingMode == VK_SHARING_MODE_EXCLUSIVE || ( c.sharingMode == VK_SHARING_MODE_CONCURRENT && c.queueFamilyIndexCount > 1 && c.pQueueFamilyIndices ), "sharing", "sharing mode without its queue families" );
	}

	void image( VkImageCreateInfo const & c )
	{
		auto call = "vkCreateImage";
		head( call, c, VK_STRUCTURE_TYPE_IMAGE_CREATE_INFO, "the info" );
		RULE( c.usage != 0, "usage", "no usage" );
		RULE( c.format != VK_FORMAT_UNDEFINED, "format", "no format" );
		RULE( c.imageType >= VK_IMAGE_TYPE_1D && c.imageType <= VK_IMAGE_TYPE_3D, "type", "type " + n( c.imageType ) );
		RULE( c.extent.width && c.extent.height && c.extent.depth, "extent", "empty extent" );
		RULE( c.arrayLayers != 0, "layers", "no array layer" );
		auto big = std::max( { c.extent.width, c.extent.height, c.extent.depth } );
		uint32_t most = 1;
		while ( big >>= 1 ) ++most;
		RULE( c.mipLevels >= 1 && c.mipLevels <= most, "mips", n( c.mipLevels ) + " mip levels where its extent allows for " + n( most ) );
		RULE( oneBit( c.samples ) && c.samples <= VK_SAMPLE_COUNT_64_BIT, "samples", "sample count " + n( c.samples ) );
		RULE( c.imageType != VK_IMAGE_TYPE_3D || c.arrayLayers == 1, "3d-layers", "3D image with array layers" );
		RULE( c.imageType == VK_IMAGE_TYPE_3D || c.extent.depth == 1, "depth", "image which is not 3D of depth " + n( c.extent.depth ) );
		RULE( c.imageType != VK_IMAGE_TYPE_1D || c.extent.height == 1, "height", "1D image of height " + n( c.extent.height ) );
		RULE( !( c.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) || ( c.imageType == VK_IMAGE_TYPE_2D && c.extent.width == c.extent.height && c.arrayLayers >= 6 ), "cube", "cube compatible image of another shape" );
		RULE( c.initialLayout == VK_IMAGE_LAYOUT_UNDEFINED || c.initialLayout == VK_IMAGE_LAYOUT_PREINITIALIZED, "initial-layout", "initial layout " + n( c.initialLayout ) );
		RULE( c.tiling == VK_IMAGE_TILING_OPTIMAL || c.tiling == VK_IMAGE_TILING_LINEAR, "tiling", "tiling " + n( c.tiling ) );
		RULE( c.sharingMode == VK_SHARING_MODE_EXCLUSIVE || ( c.sharingMode == VK_SHARING_MODE_CONCURRENT && c.queueFamilyIndexCount > 1 && c.pQueueFamilyIndices ), "sharing", "sharing mode without its queue families" );
	}

	void imageView( VkImageViewCreateInfo const & c, Obj const * img )
	{
		auto call = "vkCreateImageView";
		head( call, c, VK_STRUCTURE_TYPE_IMAGE_VIEW_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		auto & r = c.subresourceRange;
		RULE( r.levelCount && r.layerCount, "empty", "view of " + n( r.levelCount ) + " levels and " + n( r.layerCount ) + " layers" );
		for ( auto s : { c.components.r, c.components.g, c.components.b, c.components.a } )
			RULE( s >= VK_COMPONENT_SWIZZLE_IDENTITY && s <= VK_COMPONENT_SWIZZLE_A, "swizzle", "swizzle " + n( s ) );
		if ( !img ) return;
		auto & i = img->imgCI;
		RULE( c.format == i.format || ( i.flags & VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ), "format", "format " + n( c.format ) + " on an image of format " + n( i.format ) );
		RULE( r.aspectMask && !( r.aspectMask & ~aspects( c.format ) ), "aspect", "aspects " + n( r.aspectMask ) + " of a format of aspects " + n( aspects( c.format ) ) );
		bool shape = false;
		switch ( c.viewType )
		{
		case VK_IMAGE_VIEW_TYPE_1D: shape = i.imageType == VK_IMAGE_TYPE_1D && r.layerCount == 1; break;
		case VK_IMAGE_VIEW_TYPE_1D_ARRAY: shape = i.imageType == VK_IMAGE_TYPE_1D; break;
		case VK_IMAGE_VIEW_TYPE_2D: shape = ( i.imageType == VK_IMAGE_TYPE_2D && r.layerCount == 1 ) || ( i.imageType == VK_IMAGE_TYPE_3D && ( i.flags & VK_IMAGE_CREATE_2D_ARRAY_COMPATIBLE_BIT ) ); break;
		case VK_IMAGE_VIEW_TYPE_2D_ARRAY: shape = i.imageType == VK_IMAGE_TYPE_2D || ( i.imageType == VK_IMAGE_TYPE_3D && ( i.flags & VK_IMAGE_CREATE_2D_ARRAY_COMPATIBLE_BIT ) ); break;
		case VK_IMAGE_VIEW_TYPE_3D: shape = i.imageType == VK_IMAGE_TYPE_3D && r.baseArrayLayer == 0 && r.layerCount == 1; break;
		case VK_IMAGE_VIEW_TYPE_CUBE: shape = ( i.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && r.layerCount == 6; break;
		case VK_IMAGE_VIEW_TYPE_CUBE_ARRAY: shape = ( i.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && r.layerCount % 6 == 0; break;
		default: break;
		}
		RULE( shape, "type", "view of type " + n( c.viewType ) + " with " + n( r.layerCount ) + " layers on an image of type " + n( i.imageType ) + ", flags " + n( i.flags ) );
	}

	void sampler( VkSamplerCreateInfo const & c )
	{
		auto call = "vkCreateSampler";
		head( call, c, VK_STRUCTURE_TYPE_SAMPLER_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		RULE( ( c.magFilter == VK_FILTER_NEAREST || c.magFilter == VK_FILTER_LINEAR ) && ( c.minFilter == VK_FILTER_NEAREST || c.minFilter == VK_FILTER_LINEAR ), "filter", "filters " + n( c.magFilter ) + ", " + n( c.minFilter ) );
		RULE( c.mipmapMode == VK_SAMPLER_MIPMAP_MODE_NEAREST || c.mipmapMode == VK_SAMPLER_MIPMAP_MODE_LINEAR, "mipmap-mode", "mipmap mode " + n( c.mipmapMode ) );
		for ( auto a : { c.addressModeU, c.addressModeV, c.addressModeW } )
			RULE( a >= VK_SAMPLER_ADDRESS_MODE_REPEAT && a <= VK_SAMPLER_ADDRESS_MODE_MIRROR_CLAMP_TO_EDGE, "address-mode", "address mode " + n( a ) );
		RULE( c.anisotropyEnable == VK_TRUE || c.anisotropyEnable == VK_FALSE, "bool", "anisotropyEnable " + n( c.anisotropyEnable ) );
		RULE( c.compareEnable == VK_TRUE || c.compareEnable == VK_FALSE, "bool", "compareEnable " + n( c.compareEnable ) );
		RULE( c.unnormalizedCoordinates == VK_FALSE, "bool", "unnormalizedCoordinates " + n( c.unnormalizedCoordinates ) );
		RULE( !c.compareEnable || ( c.compareOp >= VK_COMPARE_OP_NEVER && c.compareOp <= VK_COMPARE_OP_ALWAYS ), "compare", "compare operation " + n( c.compareOp ) );
		RULE( c.borderColor >= VK_BORDER_COLOR_FLOAT_TRANSPARENT_BLACK && c.borderColor <= VK_BORDER_COLOR_INT_OPAQUE_WHITE, "border", "border colour " + n( c.borderColor ) );
	}

	void allocate( VkMemoryAllocateInfo const & a )
	{
		auto call = "vkAllocateMemory";
		head( call, a, VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO, "the info" );
		RULE( a.allocationSize != 0, "size", "no byte" );
	}

	void bind( char const * call, Obj const * mem, VkDeviceSize off, VkDeviceSize size )
	{
		RULE( off % 256 == 0, "alignment", "memory offset " + n( off ) + " where the object needs a multiple of 256" );
		if ( mem ) RULE( off < mem->memSize && size <= mem->memSize - off, "size", "offset " + n( off ) + " leaves less than the " + n( size ) + " bytes the object needs" );
	}

	void map( Obj const & mem, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags flags )
	{
		auto call = "vkMapMemory";
		RULE( flags == 0, "flags", "flags " + n( flags ) );
		RULE( size != 0 && off < mem.memSize, "range", "empty range" );
	}

	void flush( uint32_t count, VkMappedMemoryRange const * r )
	{
		auto call = "vkFlushMappedMemoryRanges";
		RULE( count != 0 && r, "array", "no range" );
		for ( uint32_t i = 0; r && i < count; ++i )
		{
			head( call, r[i], VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE, "the range" );
			auto m = D.find( r[i].memory, T::Memory );
			RULE( m && m->alive && m->mapped, "mapped", "memory which is not mapped" );
			if ( !m ) continue;
			RULE( r[i].offset <= m->memSize && ( r[i].size == VK_WHOLE_SIZE || r[i].offset + r[i].size <= m->memSize ), "range", "range outside of the memory" );
			auto atom = std::max( VkDeviceSize( 1 ), D.props.limits.nonCoherentAtomSize );
			RULE( r[i].offset % atom == 0, "atom", "offset " + n( r[i].offset ) + " is no multiple of " + n( atom ) );
			RULE( r[i].size == VK_WHOLE_SIZE || r[i].size % atom == 0 || r[i].offset + r[i].size == m->memSize, "atom", "size " + n( r[i].size ) + " is no multiple of " + n( atom ) );
		}
	}

	void renderPass( VkRenderPassCreateInfo const & c )
	{
		auto call = "vkCreateRenderPass";
		head( call, c, VK_STRUCTURE_TYPE_RENDER_PASS_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		arr( call, c.attachmentCount, c.pAttachments, "pAttachments" );
		arr( call, c.dependencyCount, c.pDependencies, "pDependencies" );
		RULE( c.subpassCount >= 1 && c.pSubpasses, "subpasses", "no subpass" );
		for ( uint32_t i = 0; i < c.attachmentCount; ++i )
		{
			auto & a = c.pAttachments[i];
			RULE( ( a.flags & ~VkAttachmentDescriptionFlags( VK_ATTACHMENT_DESCRIPTION_MAY_ALIAS_BIT ) ) == 0, "attach-flags", "attachment flags " + n( a.flags ) );
			RULE( a.format != VK_FORMAT_UNDEFINED, "attach-format", "attachment without format" );
			RULE( oneBit( a.samples ), "attach-samples", "attachment of " + n( a.samples ) + " samples" );
			for ( auto l : { a.loadOp, a.stencilLoadOp } )
				RULE( l >= VK_ATTACHMENT_LOAD_OP_LOAD && l <= VK_ATTACHMENT_LOAD_OP_DONT_CARE, "load-op", "load operation " + n( l ) );
			for ( auto s : { a.storeOp, a.stencilStoreOp } )
				RULE( ( s >= VK_ATTACHMENT_STORE_OP_STORE && s <= VK_ATTACHMENT_STORE_OP_DONT_CARE ) || s == VK_ATTACHMENT_STORE_OP_NONE, "store-op", "store operation " + n( s ) );
			for ( auto l : { a.initialLayout, a.finalLayout } )
			{
				RULE( knownLayout( l ), "attach-layout", "unknown layout " + n( l ) );
				RULE( isDS( a.format ) ? l != VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL : !depthLayout( l ), "attach-layout", std::string( "layout " ) + layoutName( l ) + " on an attachment of format " + n( a.format ) );
			}
		}
		for ( uint32_t i = 0; c.pSubpasses && i < c.subpassCount; ++i )
		{
			auto & s = c.pSubpasses[i];
			RULE( s.flags == 0, "subpass-flags", "subpass flags " + n( s.flags ) );
			RULE( s.pipelineBindPoint == VK_PIPELINE_BIND_POINT_GRAPHICS, "bind-point", "subpass bind point " + n( s.pipelineBindPoint ) );
			arr( call, s.inputAttachmentCount, s.pInputAttachments, "pInputAttachments" );
			arr( call, s.colorAttachmentCount, s.pColorAttachments, "pColorAttachments" );
			arr( call, s.preserveAttachmentCount, s.pPreserveAttachments, "pPreserveAttachments" );
			std::map< uint32_t, VkImageLayout > seen;
			VkSampleCountFlagBits samples{};
			auto ref = [&]( VkAttachmentReference const & r, bool depth )
			{
				if ( r.attachment == VK_ATTACHMENT_UNUSED ) return;
				RULE( r.attachment < c.attachmentCount, "reference", "reference to attachment " + n( r.attachment ) + " of " + n( c.attachmentCount ) );
				if ( r.attachment >= c.attachmentCount ) return;
				auto & a = c.pAttachments[r.attachment];
				RULE( isDS( a.format ) == depth, "reference-kind", std::string( depth ? "depth stencil" : "colour" ) + " reference to an attachment of format " + n( a.format ) );
				RULE( knownLayout( r.layout ) && r.layout != VK_IMAGE_LAYOUT_UNDEFINED && r.layout != VK_IMAGE_LAYOUT_PREINITIALIZED && r.layout != VK_IMAGE_LAYOUT_PRESENT_SRC_KHR, "reference-layout", std::string( "reference with layout " ) + layoutName( r.layout ) );
				RULE( depth ? r.layout != VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL && r.layout != VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL : r.layout == VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL || r.layout == VK_IMAGE_LAYOUT_GENERAL, "reference-layout", std::string( depth ? "depth stencil" : "colour" ) + " reference with layout " + layoutName( r.layout ) );
				RULE( seen.emplace( r.attachment, r.layout ).second, "reference-twice", "attachment " + n( r.attachment ) + " referenced twice" );
				RULE( !samples || samples == a.samples, "reference-samples", "attachments of different sample counts" );
				samples = a.samples;
			};
			for ( uint32_t k = 0; k < s.colorAttachmentCount; ++k ) ref( s.pColorAttachments[k], false );
			if ( s.pDepthStencilAttachment ) ref( *s.pDepthStencilAttachment, true );
			for ( uint32_t k = 0; s.pPreserveAttachments && k < s.preserveAttachmentCount; ++k )
				RULE( s.pPreserveAttachments[k] < c.attachmentCount && !seen.count( s.pPreserveAttachments[k] ), "preserve", "preserved attachment which is used or does not exist" );
		}
		for ( uint32_t i = 0; i < c.dependencyCount; ++i )
		{
			auto & d = c.pDependencies[i];
			RULE( ( d.srcSubpass == VK_SUBPASS_EXTERNAL || d.srcSubpass < c.subpassCount ) && ( d.dstSubpass == VK_SUBPASS_EXTERNAL || d.dstSubpass < c.subpassCount )
				&& !( d.srcSubpass == VK_SUBPASS_EXTERNAL && d.dstSubpass == VK_SUBPASS_EXTERNAL ), "dep-subpass", "dependency from subpass " + n( d.srcSubpass ) + " to " + n( d.dstSubpass ) );
			RULE( d.srcSubpass == VK_SUBPASS_EXTERNAL || d.dstSubpass == VK_SUBPASS_EXTERNAL || d.srcSubpass <= d.dstSubpass, "dep-subpass", "dependency backwards" );
			RULE( d.srcStageMask && d.dstStageMask, "dep-stage", "dependency with an empty stage mask" );
			RULE( ( d.dependencyFlags & ~VkDependencyFlags( VK_DEPENDENCY_BY_REGION_BIT ) ) == 0, "dep-flags", "dependency flags " + n( d.dependencyFlags ) );
			access( call, "dep-access", d.srcStageMask, d.srcAccessMask );
			access( call, "dep-access", d.dstStageMask, d.dstAccessMask );
			// what runs inside of a subpass belongs to the graphics pipeline
			VkPipelineStageFlags other = VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT | VK_PIPELINE_STAGE_TRANSFER_BIT | VK_PIPELINE_STAGE_HOST_BIT;
			if ( d.srcSubpass != VK_SUBPASS_EXTERNAL ) RULE( !( d.srcStageMask & other ), "dep-stage-graphics", "the source subpass holds stages which are not of the graphics pipeline: " + n( d.srcStageMask ) );
			if ( d.dstSubpass != VK_SUBPASS_EXTERNAL ) RULE( !( d.dstStageMask & other ), "dep-stage-graphics", "the destination subpass holds stages which are not of the graphics pipeline: " + n( d.dstStageMask ) );
		}
	}

	void framebuffer( VkFramebufferCreateInfo const & c, Obj const * rp )
	{
		auto call = "vkCreateFramebuffer";
		head( call, c, VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		arr( call, c.attachmentCount, c.pAttachments, "pAttachments" );
		if ( rp ) RULE( c.attachmentCount == rp->rp.attaches.size(), "attach-count", n( c.attachmentCount ) + " attachments for a render pass of " + n( rp->rp.attaches.size() ) );
		for ( uint32_t i = 0; c.pAttachments && i < c.attachmentCount; ++i )
		{
			auto v = D.find( c.pAttachments[i], T::ImageView );
			auto img = v ? D.get( v->parent, T::Image ) : nullptr;
			if ( !img ) continue;
			auto need = isDS( v->viewCI.format ) ? VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT : VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT;
			RULE( img->imgCI.usage & need, "attach-usage", "attachment on an image without the usage" );
			if ( rp && i < rp->rp.attaches.size() )
				RULE( rp->rp.attaches[i].samples == img->imgCI.samples, "attach-samples", "attachment of " + n( img->imgCI.samples ) + " samples where the render pass has " + n( rp->rp.attaches[i].samples ) );
		}
	}

	void setLayout( VkDescriptorSetLayoutCreateInfo const & c )
	{
		auto call = "vkCreateDescriptorSetLayout";
		head( call, c, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_LAYOUT_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		arr( call, c.bindingCount, c.pBindings, "pBindings" );
		for ( uint32_t i = 0; c.pBindings && i < c.bindingCount; ++i )
		{
			auto & b = c.pBindings[i];
			RULE( b.descriptorType >= VK_DESCRIPTOR_TYPE_SAMPLER && b.descriptorType <= VK_DESCRIPTOR_TYPE_INPUT_ATTACHMENT, "type", "descriptor type " + n( b.descriptorType ) );
			RULE( b.descriptorCount == 0 || b.stageFlags != 0, "stages", "binding " + n( b.binding ) + " is visible to no shader stage" );
		}
	}

	void descriptorPool( VkDescriptorPoolCreateInfo const & c )
	{
		auto call = "vkCreateDescriptorPool";
		head( call, c, VK_STRUCTURE_TYPE_DESCRIPTOR_POOL_CREATE_INFO, "the info" );
		RULE( ( c.flags & ~VkDescriptorPoolCreateFlags( VK_DESCRIPTOR_POOL_CREATE_FREE_DESCRIPTOR_SET_BIT ) ) == 0, "flags", "flags " + n( c.flags ) );
		RULE( c.maxSets != 0, "max-sets", "no set" );
		arr( call, c.poolSizeCount, c.pPoolSizes, "pPoolSizes" );
		for ( uint32_t i = 0; c.pPoolSizes && i < c.poolSizeCount; ++i )
			RULE( c.pPoolSizes[i].descriptorCount != 0, "pool-size", "pool size of no descriptor" );
	}

	void allocateSets( VkDescriptorSetAllocateInfo const & a )
	{
		auto call = "vkAllocateDescriptorSets";
		head( call, a, VK_STRUCTURE_TYPE_DESCRIPTOR_SET_ALLOCATE_INFO, "the info" );
		RULE( a.descriptorSetCount != 0 && a.pSetLayouts, "array", "no set" );
	}

	void write( VkWriteDescriptorSet const & w )
	{
		auto call = "vkUpdateDescriptorSets";
		head( call, w, VK_STRUCTURE_TYPE_WRITE_DESCRIPTOR_SET, "the write" );
		RULE( w.descriptorCount != 0, "count", "write of no descriptor" );
		for ( uint32_t k = 0; k < w.descriptorCount; ++k )
		{
			switch ( w.descriptorType )
			{
			case VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER: case VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER:
				if ( w.pTexelBufferView ) RULE( w.pTexelBufferView[k] != VkBufferView{}, "null", "null texel buffer view" );
				break;
			case VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER: case VK_DESCRIPTOR_TYPE_STORAGE_BUFFER: case VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER_DYNAMIC: case VK_DESCRIPTOR_TYPE_STORAGE_BUFFER_DYNAMIC:
				if ( w.pBufferInfo )
				{
					auto & b = w.pBufferInfo[k];
					auto o = D.find( b.buffer, T::Buffer );
					RULE( o && o->alive, "buffer", "dead or null buffer" );
					RULE( b.range != 0, "buffer-range", "empty buffer range" );
					if ( o ) RULE( b.offset < o->bufCI.size && ( b.range == VK_WHOLE_SIZE || b.range <= o->bufCI.size - b.offset ), "buffer-range", "range outside of the buffer" );
				}
				break;
			default:
				if ( w.pImageInfo )
				{
					auto & i = w.pImageInfo[k];
					if ( w.descriptorType == VK_DESCRIPTOR_TYPE_SAMPLER || w.descriptorType == VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER )
					{
						auto s = D.find( i.sampler, T::Sampler );
						RULE( s && s->alive, "sampler", "dead or null sampler" );
					}
					if ( w.descriptorType != VK_DESCRIPTOR_TYPE_SAMPLER )
					{
						auto v = D.find( i.imageView, T::ImageView );
						RULE( v && v->alive, "view", "dead or null image view" );
						auto img = v ? D.get( v->parent, T::Image ) : nullptr;
						bool storage = w.descriptorType == VK_DESCRIPTOR_TYPE_STORAGE_IMAGE;
						if ( img && w.descriptorType != VK_DESCRIPTOR_TYPE_INPUT_ATTACHMENT )
							RULE( img->imgCI.usage & ( storage ? VK_IMAGE_USAGE_STORAGE_BIT : VK_IMAGE_USAGE_SAMPLED_BIT ), "usage", "image without the usage" );
						RULE( storage ? i.imageLayout == VK_IMAGE_LAYOUT_GENERAL || i.imageLayout == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR
							: i.imageLayout == VK_IMAGE_LAYOUT_GENERAL || i.imageLayout == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL || depthLayout( i.imageLayout ), "image-layout", std::string( "descriptor of type " ) + n( w.descriptorType ) + " with layout " + layoutName( i.imageLayout ) );
					}
				}
				break;
			}
		}
	}

	void pipelineLayout( VkPipelineLayoutCreateInfo const & c )
	{
		auto call = "vkCreatePipelineLayout";
		head( call, c, VK_STRUCTURE_TYPE_PIPELINE_LAYOUT_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		arr( call, c.setLayoutCount, c.pSetLayouts, "pSetLayouts" );
		arr( call, c.pushConstantRangeCount, c.pPushConstantRanges, "pPushConstantRanges" );
		VkShaderStageFlags seen{};
		for ( uint32_t i = 0; c.pPushConstantRanges && i < c.pushConstantRangeCount; ++i )
		{
			auto & r = c.pPushConstantRanges[i];
			RULE( r.stageFlags && r.size && r.size % 4 == 0 && r.offset % 4 == 0, "push-range", "push constant range of " + n( r.size ) + " bytes at " + n( r.offset ) );
			RULE( !( seen & r.stageFlags ), "push-stages", "a stage has two push constant ranges" );
			seen |= r.stageFlags;
		}
	}

	static void stages( char const * call, uint32_t count, VkPipelineShaderStageCreateInfo const * s, bool compute )
	{
		VkShaderStageFlags seen{};
		arr( call, count, s, "pStages" );
		for ( uint32_t i = 0; s && i < count; ++i )
		{
			head( call, s[i], VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, "the shader stage" );
			RULE( s[i].flags == 0, "stage-flags", "stage flags " + n( s[i].flags ) );
			RULE( oneBit( s[i].stage ), "stage", "stage " + n( s[i].stage ) );
			RULE( ( s[i].stage == VK_SHADER_STAGE_COMPUTE_BIT ) == compute, "stage", "stage " + n( s[i].stage ) + " in a " + ( compute ? "compute" : "graphics" ) + " pipeline" );
			RULE( !( seen & s[i].stage ), "stage-twice", "stage " + n( s[i].stage ) + " given twice" );
			RULE( s[i].pName && *s[i].pName, "entry", "stage without entry point" );
			seen |= s[i].stage;
		}
		if ( !compute )
			RULE( seen & VK_SHADER_STAGE_VERTEX_BIT, "vertex-stage", "no vertex stage" );
	}

	static bool b32( VkBool32 b ) { return b == VK_TRUE || b == VK_FALSE; }

	void graphics( VkGraphicsPipelineCreateInfo const & c, Obj const * rp )
	{
		auto call = "vkCreateGraphicsPipelines";
		head( call, c, VK_STRUCTURE_TYPE_GRAPHICS_PIPELINE_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		stages( call, c.stageCount, c.pStages, false );
		RULE( c.subpass == 0, "subpass", "subpass " + n( c.subpass ) + " of a render pass which has one" );
		RULE( c.pVertexInputState != nullptr, "vertex-input", "no vertex input state" );
		RULE( c.pInputAssemblyState != nullptr, "input-assembly", "no input assembly state" );
		RULE( c.pRasterizationState != nullptr, "rasterization", "no rasterization state" );
		if ( auto v = c.pVertexInputState )
		{
			head( call, *v, VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO, "the vertex input state" );
			RULE( v->flags == 0, "vi-flags", "vertex input flags " + n( v->flags ) );
			arr( call, v->vertexBindingDescriptionCount, v->pVertexBindingDescriptions, "pVertexBindingDescriptions" );
			arr( call, v->vertexAttributeDescriptionCount, v->pVertexAttributeDescriptions, "pVertexAttributeDescriptions" );
			std::map< uint32_t, uint32_t > bindings;
			std::set< uint32_t > locations;
			for ( uint32_t i = 0; v->pVertexBindingDescriptions && i < v->vertexBindingDescriptionCount; ++i )
			{
				auto & b = v->pVertexBindingDescriptions[i];
				RULE( bindings.emplace( b.binding, b.stride ).second, "vi-binding", "vertex binding " + n( b.binding ) + " described twice" );
				RULE( b.inputRate == VK_VERTEX_INPUT_RATE_VERTEX || b.inputRate == VK_VERTEX_INPUT_RATE_INSTANCE, "vi-rate", "input rate " + n( b.inputRate ) );
			}
			for ( uint32_t i = 0; v->pVertexAttributeDescriptions && i < v->vertexAttributeDescriptionCount; ++i )
			{
				auto & a = v->pVertexAttributeDescriptions[i];
				RULE( bindings.count( a.binding ), "vi-attribute", "vertex attribute of binding " + n( a.binding ) + " which is not described" );
				RULE( locations.insert( a.location ).second, "vi-location", "vertex attribute location " + n( a.location ) + " given twice" );
				RULE( a.format != VK_FORMAT_UNDEFINED, "vi-format", "vertex attribute without format" );
			}
		}
		if ( auto a = c.pInputAssemblyState )
		{
			head( call, *a, VK_STRUCTURE_TYPE_PIPELINE_INPUT_ASSEMBLY_STATE_CREATE_INFO, "the input assembly state" );
			RULE( a->flags == 0, "ia-flags", "input assembly flags " + n( a->flags ) );
			RULE( a->topology >= VK_PRIMITIVE_TOPOLOGY_POINT_LIST && a->topology <= VK_PRIMITIVE_TOPOLOGY_PATCH_LIST, "topology", "topology " + n( a->topology ) );
			RULE( b32( a->primitiveRestartEnable ), "bool", "primitiveRestartEnable " + n( a->primitiveRestartEnable ) );
			bool list = a->topology == VK_PRIMITIVE_TOPOLOGY_POINT_LIST || a->topology == VK_PRIMITIVE_TOPOLOGY_LINE_LIST || a->topology == VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST;
			RULE( !a->primitiveRestartEnable || !list, "restart", "primitive restart on lists" );
		}
		bool discard = c.pRasterizationState && c.pRasterizationState->rasterizerDiscardEnable;
		if ( auto r = c.pRasterizationState )
		{
			head( call, *r, VK_STRUCTURE_TYPE_PIPELINE_RASTERIZATION_STATE_CREATE_INFO, "the rasterization state" );
			RULE( r->flags == 0, "rs-flags", "rasterization flags " + n( r->flags ) );
			RULE( r->polygonMode >= VK_POLYGON_MODE_FILL && r->polygonMode <= VK_POLYGON_MODE_POINT, "polygon-mode", "polygon mode " + n( r->polygonMode ) );
			RULE( ( r->cullMode & ~VkCullModeFlags( VK_CULL_MODE_FRONT_AND_BACK ) ) == 0, "cull", "cull mode " + n( r->cullMode ) );
			RULE( r->frontFace == VK_FRONT_FACE_CLOCKWISE || r->frontFace == VK_FRONT_FACE_COUNTER_CLOCKWISE, "front-face", "front face " + n( r->frontFace ) );
			RULE( b32( r->depthClampEnable ) && b32( r->rasterizerDiscardEnable ) && b32( r->depthBiasEnable ), "bool", "rasterization boolean" );
			RULE( !r->depthClampEnable, "depth-clamp", "depth clamp needs a feature which was not asked for" );
			RULE( r->lineWidth == 1.0f, "line-width", "line width " + std::to_string( r->lineWidth ) );
		}
		if ( !discard )
		{
			RULE( c.pMultisampleState != nullptr, "multisample", "no multisample state" );
			RULE( c.pViewportState != nullptr, "viewport", "no viewport state" );
			if ( auto m = c.pMultisampleState )
			{
				head( call, *m, VK_STRUCTURE_TYPE_PIPELINE_MULTISAMPLE_STATE_CREATE_INFO, "the multisample state" );
				RULE( m->flags == 0, "ms-flags", "multisample flags " + n( m->flags ) );
				RULE( oneBit( m->rasterizationSamples ), "samples", "sample count " + n( m->rasterizationSamples ) );
				RULE( b32( m->sampleShadingEnable ) && b32( m->alphaToCoverageEnable ) && b32( m->alphaToOneEnable ), "bool", "multisample boolean" );
				RULE( m->minSampleShading >= 0.0f && m->minSampleShading <= 1.0f, "min-sample-shading", "minimal sample shading " + std::to_string( m->minSampleShading ) );
				RULE( !m->sampleShadingEnable && !m->alphaToOneEnable, "ms-feature", "multisample feature which was not asked for" );
				if ( rp )
					for ( auto & a : rp->rp.attaches )
						RULE( a.samples == m->rasterizationSamples, "samples", "sample count " + n( m->rasterizationSamples ) + " for attachments of " + n( a.samples ) );
			}
			if ( auto v = c.pViewportState )
			{
				head( call, *v, VK_STRUCTURE_TYPE_PIPELINE_VIEWPORT_STATE_CREATE_INFO, "the viewport state" );
				RULE( v->flags == 0, "vp-flags", "viewport flags " + n( v->flags ) );
				RULE( v->viewportCount == 1 && v->scissorCount == 1, "vp-count", n( v->viewportCount ) + " viewports and " + n( v->scissorCount ) + " scissors" );
				bool dynV = false, dynS = false;
				for ( uint32_t i = 0; c.pDynamicState && i < c.pDynamicState->dynamicStateCount; ++i )
				{
					dynV = dynV || c.pDynamicState->pDynamicStates[i] == VK_DYNAMIC_STATE_VIEWPORT;
					dynS = dynS || c.pDynamicState->pDynamicStates[i] == VK_DYNAMIC_STATE_SCISSOR;
				}
				RULE( dynV || v->pViewports, "viewport", "no viewport" );
				RULE( dynS || v->pScissors, "scissor", "no scissor" );
				for ( uint32_t i = 0; v->pViewports && i < v->viewportCount; ++i )
				{
					auto & p = v->pViewports[i];
					RULE( p.width > 0.0f && p.height != 0.0f, "viewport", "empty viewport" );
					RULE( p.minDepth >= 0.0f && p.minDepth <= 1.0f && p.maxDepth >= 0.0f && p.maxDepth <= 1.0f, "viewport-depth", "viewport depths " + std::to_string( p.minDepth ) + " to " + std::to_string( p.maxDepth ) );
				}
				for ( uint32_t i = 0; v->pScissors && i < v->scissorCount; ++i )
					RULE( v->pScissors[i].offset.x >= 0 && v->pScissors[i].offset.y >= 0, "scissor", "scissor of negative offset" );
			}
			if ( rp && rp->rp.hasDepth )
				RULE( c.pDepthStencilState != nullptr, "depth-stencil", "no depth stencil state for a render pass which has such an attachment" );
			if ( rp && !rp->rp.colours.empty() )
				RULE( c.pColorBlendState != nullptr, "blend", "no colour blend state for a render pass which has colour attachments" );
			if ( auto d = c.pDepthStencilState )
			{
				head( call, *d, VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO, "the depth stencil state" );
				RULE( d->flags == 0, "ds-flags", "depth stencil flags " + n( d->flags ) );
				RULE( b32( d->depthTestEnable ) && b32( d->depthWriteEnable ) && b32( d->depthBoundsTestEnable ) && b32( d->stencilTestEnable ), "bool", "depth stencil boolean" );
				RULE( d->depthCompareOp >= VK_COMPARE_OP_NEVER && d->depthCompareOp <= VK_COMPARE_OP_ALWAYS, "ds-compare", "depth compare operation " + n( d->depthCompareOp ) );
			}
			if ( auto b = c.pColorBlendState )
			{
				head( call, *b, VK_STRUCTURE_TYPE_PIPELINE_COLOR_BLEND_STATE_CREATE_INFO, "the blend state" );
				RULE( b->flags == 0, "blend-flags", "blend flags " + n( b->flags ) );
				RULE( b32( b->logicOpEnable ) && !b->logicOpEnable, "logic-op", "logic operation" );
				arr( call, b->attachmentCount, b->pAttachments, "the blend attachments" );
				for ( uint32_t i = 0; b->pAttachments && i < b->attachmentCount; ++i )
				{
					auto & a = b->pAttachments[i];
					RULE( b32( a.blendEnable ), "bool", "blendEnable " + n( a.blendEnable ) );
					for ( auto f : { a.srcColorBlendFactor, a.dstColorBlendFactor, a.srcAlphaBlendFactor, a.dstAlphaBlendFactor } )
						RULE( f >= VK_BLEND_FACTOR_ZERO && f <= VK_BLEND_FACTOR_ONE_MINUS_SRC1_ALPHA, "blend-factor", "blend factor " + n( f ) );
					for ( auto o : { a.colorBlendOp, a.alphaBlendOp } )
						RULE( o >= VK_BLEND_OP_ADD && o <= VK_BLEND_OP_MAX, "blend-op", "blend operation " + n( o ) );
					RULE( ( a.colorWriteMask & ~0xFu ) == 0, "write-mask", "colour write mask " + n( a.colorWriteMask ) );
				}
			}
		}
	}

	void compute( VkComputePipelineCreateInfo const & c )
	{
		auto call = "vkCreateComputePipelines";
		head( call, c, VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		stages( call, 1, &c.stage, true );
	}

	void commandPool( VkCommandPoolCreateInfo const & c )
	{
		auto call = "vkCreateCommandPool";
		head( call, c, VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, "the info" );
		RULE( ( c.flags & ~VkCommandPoolCreateFlags( VK_COMMAND_POOL_CREATE_TRANSIENT_BIT | VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) ) == 0, "flags", "flags " + n( c.flags ) );
	}

	void allocateCommandBuffers( VkCommandBufferAllocateInfo const & a )
	{
		auto call = "vkAllocateCommandBuffers";
		head( call, a, VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, "the info" );
		RULE( a.commandBufferCount != 0, "count", "no command buffer" );
		RULE( a.level == VK_COMMAND_BUFFER_LEVEL_PRIMARY, "level", "level " + n( a.level ) + " of command buffers which are submitted" );
	}

	void simple( char const * call, VkStructureType want, VkStructureType got, void const * next, uint32_t flags, uint32_t allowed )
	{
		RULE( got == want, "sType", "the info has structure type " + n( got ) );
		RULE( !next, "pNext", "the info has an extension chain no extension was enabled for" );
		RULE( ( flags & ~allowed ) == 0, "flags", "flags " + n( flags ) );
	}

	void queryPool( VkQueryPoolCreateInfo const & c )
	{
		auto call = "vkCreateQueryPool";
		head( call, c, VK_STRUCTURE_TYPE_QUERY_POOL_CREATE_INFO, "the info" );
		RULE( c.flags == 0, "flags", "flags " + n( c.flags ) );
		RULE( c.queryType == VK_QUERY_TYPE_TIMESTAMP && c.pipelineStatistics == 0, "type", "query type " + n( c.queryType ) + " for timestamps" );
		RULE( c.queryCount != 0, "count", "no query" );
	}

	void queryResults( uint32_t count, size_t size, void const * data, VkDeviceSize stride, VkQueryResultFlags flags )
	{
		auto call = "vkGetQueryPoolResults";
		size_t es = ( flags & VK_QUERY_RESULT_64_BIT ) ? 8 : 4;
		RULE( count != 0 && size != 0 && data, "size", "no result asked for" );
		RULE( ( uintptr_t( data ) | stride ) % es == 0, "alignment", "stride " + n( stride ) + " or storage which suits no value of " + n( es ) + " bytes" );
		RULE( !( flags & VK_QUERY_RESULT_PARTIAL_BIT ), "partial", "partial timestamps" );
	}

	static Obj * poolOf( Obj const & cb ) { return D.get( cb.parent, T::CmdPool ); }

	void begin( Obj const & cb, VkCommandBufferBeginInfo const & b )
	{
		auto call = "vkBeginCommandBuffer";
		head( call, b, VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, "the info" );
		RULE( ( b.flags & ~7u ) == 0, "flags", "flags " + n( b.flags ) );
		RULE( ( b.flags & ( VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT | VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ) ) != ( VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT | VK_COMMAND_BUFFER_USAGE_SIMULTANEOUS_USE_BIT ), "flags", "one time submit and simultaneous use" );
		RULE( !( b.flags & VK_COMMAND_BUFFER_USAGE_RENDER_PASS_CONTINUE_BIT ), "flags", "render pass continued by a primary command buffer" );
		if ( auto p = poolOf( cb ) )
			RULE( cb.cbState == 0 || ( p->createFlags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ), "reset", "a recorded command buffer is recorded anew although its pool does not allow to reset it" );
	}

	void resetCb( Obj const & cb, VkCommandBufferResetFlags flags )
	{
		auto call = "vkResetCommandBuffer";
		RULE( ( flags & ~1u ) == 0, "flags", "flags " + n( flags ) );
		if ( auto p = poolOf( cb ) )
			RULE( ( p->createFlags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT ) != 0, "reset", "a command buffer is reset although its pool does not allow it" );
	}

	void submit( uint32_t count, VkSubmitInfo const * s )
	{
		auto call = "vkQueueSubmit";
		arr( call, count, s, "pSubmits" );
		for ( uint32_t i = 0; s && i < count; ++i )
		{
			head( call, s[i], VK_STRUCTURE_TYPE_SUBMIT_INFO, "the info" );
			arr( call, s[i].waitSemaphoreCount, s[i].pWaitSemaphores, "pWaitSemaphores" );
			arr( call, s[i].waitSemaphoreCount, s[i].pWaitDstStageMask, "pWaitDstStageMask" );
			arr( call, s[i].commandBufferCount, s[i].pCommandBuffers, "pCommandBuffers" );
			arr( call, s[i].signalSemaphoreCount, s[i].pSignalSemaphores, "pSignalSemaphores" );
		}
	}

	void fences( char const * call, uint32_t count, VkFence const * f )
	{
		RULE( count != 0 && f, "array", "no fence" );
	}

	static void range( char const * call, VkImageSubresourceRange const & r, Obj const * img )
	{
		RULE( r.levelCount && r.layerCount, "empty", n( r.levelCount ) + " levels and " + n( r.layerCount ) + " layers" );
		if ( img )
			RULE( r.aspectMask && !( r.aspectMask & ~aspects( img->imgCI.format ) ), "aspect", "aspects " + n( r.aspectMask ) + " of an image of aspects " + n( aspects( img->imgCI.format ) ) );
	}
	static void layers( char const * call, VkImageSubresourceLayers const & r, Obj const * img )
	{
		RULE( r.layerCount, "empty", "no layer" );
		if ( img )
			RULE( r.aspectMask && !( r.aspectMask & ~aspects( img->imgCI.format ) ), "aspect", "aspects " + n( r.aspectMask ) + " of an image of aspects " + n( aspects( img->imgCI.format ) ) );
	}
	static void usage( char const * call, Obj const * img, VkImageUsageFlags u )
	{
		if ( img ) RULE( img->imgCI.usage & u, "usage", "image without the usage" );
	}
	static void busage( char const * call, Obj const * buf, VkBufferUsageFlags u )
	{
		if ( buf ) RULE( buf->bufCI.usage & u, "usage", "buffer of usage " + n( buf->bufCI.usage ) + " without the usage " + n( u ) );
	}
	static void transferLayout( char const * call, VkImageLayout l, bool src )
	{
		RULE( l == VK_IMAGE_LAYOUT_GENERAL || l == ( src ? VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL ) || l == VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR, "layout", std::string( src ? "source" : "destination" ) + " in layout " + layoutName( l ) );
	}
	static uint32_t texel( VkFormat f )
	{
		switch ( f )
		{
		case VK_FORMAT_R8_UNORM: case VK_FORMAT_R8_UINT: case VK_FORMAT_S8_UINT: return 1;
		case VK_FORMAT_R16_SFLOAT: case VK_FORMAT_R16_UNORM: case VK_FORMAT_R8G8_UNORM: case VK_FORMAT_D16_UNORM: return 2;
		default: return 4;
		}
	}

	// One recorded command; objects it names which do not exist are judged elsewhere.
	void command( Obj const & cb, Cmd const & c )
	{
		auto call = opName( c.op );
		switch ( c.op )
		{
		case Op::Barrier:
			RULE( !( c.n.empty() ? 0 : c.n[0] & ~7u ), "flags", "dependency flags" );
			for ( auto & b : c.imgB )
			{
				head( call, b, VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER, "the image barrier" );
				auto img = D.find( b.image, T::Image );
				range( call, b.subresourceRange, img );
				RULE( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "queue-family", "transfer between queue families " + n( b.srcQueueFamilyIndex ) + " and " + n( b.dstQueueFamilyIndex ) );
				access( call, "access", c.src, b.srcAccessMask );
				access( call, "access", c.dst, b.dstAccessMask );
				for ( auto l : { b.oldLayout, b.newLayout } )
				{
					RULE( knownLayout( l ), "layout", "unknown layout " + n( l ) );
					if ( img )
					{
						RULE( isDS( img->imgCI.format ) ? l != VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL : !depthLayout( l ), "layout", std::string( "layout " ) + layoutName( l ) + " on an image of format " + n( img->imgCI.format ) );
						auto u = usageOf( l );
						RULE( !u || ( img->imgCI.usage & u ), "layout-usage", std::string( "layout " ) + layoutName( l ) + " on an image without the usage" );
					}
				}
			}
			for ( auto & b : c.bufB )
			{
				head( call, b, VK_STRUCTURE_TYPE_BUFFER_MEMORY_BARRIER, "the buffer barrier" );
				RULE( b.srcQueueFamilyIndex == b.dstQueueFamilyIndex, "queue-family", "transfer between queue families " + n( b.srcQueueFamilyIndex ) + " and " + n( b.dstQueueFamilyIndex ) );
				RULE( b.size != 0, "empty", "barrier of no byte" );
				access( call, "access", c.src, b.srcAccessMask );
				access( call, "access", c.dst, b.dstAccessMask );
			}
			for ( auto & b : c.memB )
			{
				head( call, b, VK_STRUCTURE_TYPE_MEMORY_BARRIER, "the memory barrier" );
				access( call, "access", c.src, b.srcAccessMask );
				access( call, "access", c.dst, b.dstAccessMask );
			}
			break;
		case Op::ClearColor: case Op::ClearDS:
			{
				auto img = D.get( c.a, T::Image );
				RULE( !c.ranges.empty(), "array", "no range" );
				transferLayout( call, c.la, false );
				usage( call, img, VK_IMAGE_USAGE_TRANSFER_DST_BIT );
				for ( auto & r : c.ranges ) range( call, r, img );
				if ( c.op == Op::ClearDS )
					RULE( c.clears[0].depthStencil.depth >= 0.0f && c.clears[0].depthStencil.depth <= 1.0f, "depth", "depth " + std::to_string( c.clears[0].depthStencil.depth ) );
			}
			break;
		case Op::BeginRP:
			RULE( c.n[0] == VK_SUBPASS_CONTENTS_INLINE, "contents", "subpass contents " + n( c.n[0] ) + " followed by commands" );
			break;
		case Op::BindSets:
			{
				RULE( !c.handles.empty(), "array", "no set" );
				auto l = D.get( c.a, T::PipelineLayout );
				if ( l ) RULE( c.n[0] + c.handles.size() <= l->setLayouts.size(), "range", "sets " + n( c.n[0] ) + " to " + n( c.n[0] + c.handles.size() ) + " of a layout of " + n( l->setLayouts.size() ) );
			}
			break;
		case Op::BindVB:
			RULE( !c.handles.empty(), "array", "no vertex buffer" );
			for ( size_t i = 0; i < c.handles.size(); ++i )
			{
				auto b = D.get( c.handles[i], T::Buffer );
				RULE( b && b->alive, "buffer", "dead or null vertex buffer" );
				busage( call, b, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT );
				if ( b ) RULE( c.offs[i] < b->bufCI.size, "offset", "offset " + n( c.offs[i] ) + " in a buffer of " + n( b->bufCI.size ) );
			}
			break;
		case Op::BindIB:
			{
				auto b = D.get( c.a, T::Buffer );
				RULE( b && b->alive, "buffer", "dead or null index buffer" );
				busage( call, b, VK_BUFFER_USAGE_INDEX_BUFFER_BIT );
				RULE( c.n[0] == VK_INDEX_TYPE_UINT16 || c.n[0] == VK_INDEX_TYPE_UINT32, "type", "index type " + n( c.n[0] ) );
				RULE( c.offs[0] % ( c.n[0] == VK_INDEX_TYPE_UINT16 ? 2 : 4 ) == 0, "alignment", "offset " + n( c.offs[0] ) );
				if ( b ) RULE( c.offs[0] < b->bufCI.size, "offset", "offset " + n( c.offs[0] ) + " in a buffer of " + n( b->bufCI.size ) );
			}
			break;
		case Op::DrawIndirect: case Op::DrawIndexedIndirect: case Op::DispatchIndirect:
			{
				auto b = D.get( c.a, T::Buffer );
				RULE( b && b->alive, "buffer", "dead or null indirect buffer" );
				busage( call, b, VK_BUFFER_USAGE_INDIRECT_BUFFER_BIT );
				RULE( c.offs[0] % 4 == 0, "alignment", "offset " + n( c.offs[0] ) );
				if ( c.op != Op::DispatchIndirect && c.n[0] > 1 )
					RULE( c.n[1] % 4 == 0 && c.n[1] >= ( c.op == Op::DrawIndirect ? sizeof( VkDrawIndirectCommand ) : sizeof( VkDrawIndexedIndirectCommand ) ), "stride", "stride " + n( c.n[1] ) );
			}
			break;
		case Op::Push:
			RULE( c.n[0] != 0, "stages", "no stage" );
			RULE( c.n[1] % 4 == 0 && c.n[2] % 4 == 0 && c.n[2] != 0, "alignment", n( c.n[2] ) + " bytes at " + n( c.n[1] ) );
			break;
		case Op::ResetQuery:
			RULE( c.n[1] != 0, "count", "no query" );
			break;
		case Op::WriteTS:
			RULE( oneBit( c.n[1] ), "stage", "timestamp of stages " + n( c.n[1] ) );
			break;
		case Op::Blit:
			{
				auto s = D.get( c.a, T::Image ), d = D.get( c.b, T::Image );
				RULE( !c.blits.empty(), "array", "no region" );
				transferLayout( call, c.la, true );
				transferLayout( call, c.lb, false );
				usage( call, s, VK_IMAGE_USAGE_TRANSFER_SRC_BIT );
				usage( call, d, VK_IMAGE_USAGE_TRANSFER_DST_BIT );
				RULE( c.filter == VK_FILTER_NEAREST || c.filter == VK_FILTER_LINEAR, "filter", "filter " + n( c.filter ) );
				if ( s && d )
				{
					RULE( !isDS( s->imgCI.format ) || c.filter == VK_FILTER_NEAREST, "depth-filter", "depth or stencil blitted with a filter" );
					RULE( ( !isDS( s->imgCI.format ) && !isDS( d->imgCI.format ) ) || s->imgCI.format == d->imgCI.format, "depth-format", "blit between formats " + n( s->imgCI.format ) + " and " + n( d->imgCI.format ) );
					RULE( s->imgCI.samples == VK_SAMPLE_COUNT_1_BIT && d->imgCI.samples == VK_SAMPLE_COUNT_1_BIT, "samples", "blit of multisampled images" );
				}
				for ( auto & r : c.blits )
				{
					layers( call, r.srcSubresource, s );
					layers( call, r.dstSubresource, d );
					RULE( r.srcSubresource.aspectMask == r.dstSubresource.aspectMask, "aspects", "aspects " + n( r.srcSubresource.aspectMask ) + " to " + n( r.dstSubresource.aspectMask ) );
					RULE( r.srcSubresource.layerCount == r.dstSubresource.layerCount, "layers", n( r.srcSubresource.layerCount ) + " layers to " + n( r.dstSubresource.layerCount ) );
				}
			}
			break;
		case Op::CopyBuf:
			{
				auto s = D.get( c.a, T::Buffer ), d = D.get( c.b, T::Buffer );
				RULE( !c.bcopies.empty(), "array", "no region" );
				busage( call, s, VK_BUFFER_USAGE_TRANSFER_SRC_BIT );
				busage( call, d, VK_BUFFER_USAGE_TRANSFER_DST_BIT );
				for ( auto & r : c.bcopies )
				{
					RULE( r.size != 0, "empty", "copy of no byte" );
					if ( c.a == c.b ) RULE( r.srcOffset + r.size <= r.dstOffset || r.dstOffset + r.size <= r.srcOffset, "overlap", "source and destination overlap" );
				}
			}
			break;
		case Op::CopyB2I: case Op::CopyI2B:
			{
				auto img = D.get( c.op == Op::CopyB2I ? c.b : c.a, T::Image );
				auto buf = D.get( c.op == Op::CopyB2I ? c.a : c.b, T::Buffer );
				RULE( !c.bicopies.empty(), "array", "no region" );
				transferLayout( call, c.la, c.op == Op::CopyI2B );
				usage( call, img, c.op == Op::CopyB2I ? VK_IMAGE_USAGE_TRANSFER_DST_BIT : VK_IMAGE_USAGE_TRANSFER_SRC_BIT );
				busage( call, buf, c.op == Op::CopyB2I ? VK_BUFFER_USAGE_TRANSFER_SRC_BIT : VK_BUFFER_USAGE_TRANSFER_DST_BIT );
				for ( auto & r : c.bicopies )
				{
					layers( call, r.imageSubresource, img );
					RULE( oneBit( r.imageSubresource.aspectMask ), "single-aspect", "copy of the aspects " + n( r.imageSubresource.aspectMask ) + " at once" );
					RULE( r.imageExtent.width && r.imageExtent.height && r.imageExtent.depth, "empty", "copy of no texel" );
					RULE( r.bufferRowLength == 0 || r.bufferRowLength >= r.imageExtent.width, "row-length", "row length " + n( r.bufferRowLength ) );
					RULE( r.bufferImageHeight == 0 || r.bufferImageHeight >= r.imageExtent.height, "image-height", "image height " + n( r.bufferImageHeight ) );
					if ( img ) RULE( r.bufferOffset % ( isDS( img->imgCI.format ) ? 4 : texel( img->imgCI.format ) ) == 0, "buffer-offset", "buffer offset " + n( r.bufferOffset ) );
				}
			}
			break;
		case Op::CopyImg:
			{
				auto s = D.get( c.a, T::Image ), d = D.get( c.b, T::Image );
				RULE( !c.icopies.empty(), "array", "no region" );
				transferLayout( call, c.la, true );
				transferLayout( call, c.lb, false );
				usage( call, s, VK_IMAGE_USAGE_TRANSFER_SRC_BIT );
				usage( call, d, VK_IMAGE_USAGE_TRANSFER_DST_BIT );
				if ( s && d )
					RULE( s->imgCI.samples == d->imgCI.samples, "samples", "copy between images of different sample counts" );
				for ( auto & r : c.icopies )
				{
					layers( call, r.srcSubresource, s );
					layers( call, r.dstSubresource, d );
					RULE( r.extent.width && r.extent.height && r.extent.depth, "empty", "copy of no texel" );
					RULE( r.srcSubresource.aspectMask == r.dstSubresource.aspectMask, "aspects", "aspects " + n( r.srcSubresource.aspectMask ) + " to " + n( r.dstSubresource.aspectMask ) );
				}
			}
			break;
		case Op::FillBuf:
			{
				auto b = D.get( c.a, T::Buffer );
				busage( call, b, VK_BUFFER_USAGE_TRANSFER_DST_BIT );
				RULE( c.offs[1] != 0, "empty", "fill of no byte" );
				if ( b ) RULE( c.offs[0] < b->bufCI.size, "offset", "offset " + n( c.offs[0] ) + " in a buffer of " + n( b->bufCI.size ) );
			}
			break;
		default:
			break;
		}
	}

	void cmdBuffer( Obj const & cb )
	{
		for ( auto & c : cb.cmds ) command( cb, c );
	}
}
