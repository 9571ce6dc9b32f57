// Descriptions: what an attachment tells about the use it was declared with, and the tables about formats, layouts and ranges.
#include "cases.hpp"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/WriteDescriptorSet.hpp>
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>

namespace mon
{
	namespace
	{
		using A = crg::Attachment;

		constexpr VkAccessFlags ShR = VK_ACCESS_SHADER_READ_BIT, ShW = VK_ACCESS_SHADER_WRITE_BIT, TR = VK_ACCESS_TRANSFER_READ_BIT, TW = VK_ACCESS_TRANSFER_WRITE_BIT
			, CR = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, CW = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, DR = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, DW = VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
		constexpr VkPipelineStageFlags Frag = VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, Comp = VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, Tra = VK_PIPELINE_STAGE_TRANSFER_BIT
			, Col = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT, Dep = VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
		enum class Kind { Colour, Depth, Stencil, DepthStencil, Sampled, Storage, Transfer, Transition };

		// the accesses each stage can perform (Vulkan, "Supported access types")
		bool stageAllows( VkPipelineStageFlags s, VkAccessFlagBits a )
		{
			auto shaders = VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | Frag | Comp | VK_PIPELINE_STAGE_GEOMETRY_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_CONTROL_SHADER_BIT | VK_PIPELINE_STAGE_TESSELLATION_EVALUATION_SHADER_BIT;
			if ( s & ( VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT ) ) return true;
			switch ( a )
			{
			case VK_ACCESS_SHADER_READ_BIT: case VK_ACCESS_SHADER_WRITE_BIT: return ( s & VkPipelineStageFlags( shaders ) ) != 0;
			case VK_ACCESS_TRANSFER_READ_BIT: case VK_ACCESS_TRANSFER_WRITE_BIT: return ( s & Tra ) != 0;
			case VK_ACCESS_COLOR_ATTACHMENT_READ_BIT: case VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT: return ( s & Col ) != 0;
			case VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT: case VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT: return ( s & Dep ) != 0;
			case VK_ACCESS_MEMORY_READ_BIT: case VK_ACCESS_MEMORY_WRITE_BIT: return s != 0;
			case VK_ACCESS_SHADING_RATE_IMAGE_READ_BIT_NV: return ( s & VK_PIPELINE_STAGE_SHADING_RATE_IMAGE_BIT_NV ) != 0;
			default: return false;
			}
		}

		struct Expect
		{
			bool image{}, in{}, out{}, clear{};
			Kind kind{};
			uint32_t binding{};
			std::string suffix;
			VkAttachmentLoadOp load = VK_ATTACHMENT_LOAD_OP_DONT_CARE, sload = VK_ATTACHMENT_LOAD_OP_DONT_CARE;
			VkAttachmentStoreOp store = VK_ATTACHMENT_STORE_OP_DONT_CARE, sstore = VK_ATTACHMENT_STORE_OP_DONT_CARE;
			VkImageLayout layout{}, sepLayout{};
			VkAccessFlags access{};
			VkPipelineStageFlags gfx{}, comp{};
			VkDescriptorType desc = VK_DESCRIPTOR_TYPE_MAX_ENUM;
			VkClearValue clearValue{};
			VkPipelineColorBlendAttachmentState blend{};
			crg::SamplerDesc sampler{};
			crg::ImageViewIdArray views;
			std::vector< VkBuffer > buffers;
			VkBufferView bufferView{};
			VkDeviceSize offset{}, range{};
			bool stencilIn{}, stencilOut{}, uniform{}, view{}, noTransition{};
			std::string what;
		};

		struct TablesCase
		{
			Case & c;
			Rng & rng;
			Driver drv;
			crg::ResourceHandler handler;
			crg::FrameGraph graph{ handler, "graph" };
			std::string log;

			explicit TablesCase( Case & k ) : c{ k }, rng{ k.rng } {}

			void bad( char const * cat, char const * sig, std::string const & m ) { c.viol( cat, sig, m + ( log.empty() ? "" : ": " + log ) ); }

			struct Img { crg::ImageId id; VkFormat format; VkImageAspectFlags aspects; };
			std::vector< Img > imgs;

			Img makeImage( bool ds, int dsKind )
			{
				static VkFormat const colours[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_R16G16B16A16_SFLOAT, VK_FORMAT_R8_UINT };
				static VkFormat const depths[]{ VK_FORMAT_D16_UNORM, VK_FORMAT_D32_SFLOAT, VK_FORMAT_X8_D24_UNORM_PACK32 };
				static VkFormat const dss[]{ VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT_S8_UINT, VK_FORMAT_D16_UNORM_S8_UINT };
				VkFormat f = !ds ? colours[rng.below( 4 )] : dsKind == 0 ? depths[rng.below( 3 )] : dsKind == 1 ? VK_FORMAT_S8_UINT : dss[rng.below( 3 )];
				VkImageAspectFlags asp = !ds ? VK_IMAGE_ASPECT_COLOR_BIT : dsKind == 0 ? VK_IMAGE_ASPECT_DEPTH_BIT : dsKind == 1 ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
				bool d3 = !ds && rng.chance( 25 );
				uint32_t mips = rng.range( 1, 6 ), layers = d3 ? 1 : rng.range( 1, 6 );
				VkExtent3D e{ 1u << rng.below( 9 ), 1u << rng.below( 9 ), d3 ? 1u << rng.below( 6 ) : 1u };
				if ( rng.chance( 40 ) ) { e.width += rng.below( 30 ); e.height += rng.below( 30 ); if ( d3 ) e.depth += rng.below( 9 ); }
				Img r{ graph.createImage( crg::ImageData{ "i" + std::to_string( imgs.size() ), 0, d3 ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D, f, e, VK_IMAGE_USAGE_SAMPLED_BIT, mips, layers } ), f, asp };
				imgs.push_back( r );
				if ( crg::getFormat( r.id ) != f || crg::getMipLevels( r.id ) != mips || crg::getArrayLayers( r.id ) != layers || crg::getImageType( r.id ) != ( d3 ? VK_IMAGE_TYPE_3D : VK_IMAGE_TYPE_2D ) )
					bad( "table", "image", "an image is not described as it was created" );
				auto g = crg::getExtent( r.id );
				if ( memcmp( &g, &e, sizeof( e ) ) ) bad( "table", "extent", "wrong extent of an image" );
				return r;
			}
			crg::ImageViewId makeView( Img const & i, VkImageAspectFlags asp )
			{
				auto & ci = i.id.data->info;
				VkImageSubresourceRange r{ asp, rng.below( ci.mipLevels ), 1, rng.below( ci.arrayLayers ), 1 };
				if ( rng.chance( 50 ) ) r.levelCount = rng.range( 1, ci.mipLevels - r.baseMipLevel );
				if ( rng.chance( 50 ) ) r.layerCount = rng.range( 1, ci.arrayLayers - r.baseArrayLayer );
				auto type = ci.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : r.layerCount > 1 || rng.chance( 20 ) ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
				auto v = graph.createView( crg::ImageViewData{ "v" + std::to_string( rng.below( 100 ) ), i.id, 0, type, i.format, r } );
				auto m = crg::getMipExtent( v );
				auto l = r.baseMipLevel;
				if ( m.width != std::max( 1u, ci.extent.width >> l ) || m.height != std::max( 1u, ci.extent.height >> l ) || m.depth != std::max( 1u, ci.extent.depth >> l ) )
					bad( "table", "mip-extent", "wrong extent of the mip level " + std::to_string( l ) );
				auto e = crg::getExtent( v );
				if ( memcmp( &e, &ci.extent, sizeof( e ) ) || crg::getFormat( v ) != i.format || crg::getMipLevels( v ) != r.levelCount || crg::getArrayLayers( v ) != r.layerCount || crg::getImageType( v ) != ci.imageType )
					bad( "table", "view", "a view is not described as it was created" );
				c.stats.add( "extents checked" );
				return v;
			}

			//**** attachments ****

			VkClearValue clearValue()
			{
				VkClearValue r{};
				for ( int i = 0; i < 4; ++i ) r.color.uint32[i] = uint32_t( rng.next() );
				if ( rng.chance( 50 ) ) for ( int i = 0; i < 4; ++i ) r.color.float32[i] = float( rng.below( 100 ) ) / 10.f;
				return r;
			}

			void attachments()
			{
				auto & p0 = graph.createPass( "p", []( crg::FramePass const & fp, crg::GraphContext & ctx, crg::RunnableGraph & rg ) -> crg::RunnablePassPtr { return std::make_unique< crg::RunnablePass >( fp, ctx, rg, crg::RunnablePass::Callbacks{ []( uint32_t ){}, crg::RunnablePass::GetPipelineStateCallback( []{ return crg::getPipelineState( Frag ); } ) } ); } );
				std::vector< Expect > images, buffers;
				uint32_t n = rng.range( 1, 24 );
				for ( uint32_t k = 0; k < n; ++k )
				{
					int op = int( rng.below( 38 ) );
					Expect e;
					e.binding = rng.chance( 80 ) ? rng.below( 100 ) : uint32_t( rng.next() );
					if ( op < 23 )
					{
						e.image = true;
						bool ds = op >= 11, stencilOnly = op >= 20;
						int dsKind = !ds ? 0 : op == 11 || op == 12 ? int( rng.below( 2 ) * 2 ) : op <= 13 ? 2 : op <= 16 ? ( rng.chance( 50 ) ? 0 : 2 ) : op <= 19 ? 2 : ( rng.chance( 50 ) ? 1 : 2 );
						auto img = makeImage( ds, dsKind );
						auto asp = img.aspects;
						if ( ds && dsKind == 2 && op >= 14 && op <= 16 && rng.chance( 50 ) ) asp = VK_IMAGE_ASPECT_DEPTH_BIT;
						if ( stencilOnly && dsKind == 2 && rng.chance( 50 ) ) asp = VK_IMAGE_ASPECT_STENCIL_BIT;
						uint32_t nv = rng.chance( 30 ) ? rng.range( 2, 4 ) : 1;
						for ( uint32_t i = 0; i < nv; ++i ) e.views.push_back( makeView( img, asp ) );
					}
					else
					{
						uint32_t nb = rng.chance( 30 ) ? rng.range( 2, 4 ) : 1;
						for ( uint32_t i = 0; i < nb; ++i ) e.buffers.push_back( drv.makeBuffer( 1024, "b" ) );
						e.offset = rng.below( 8 ) * 64;
						e.range = rng.range( 1, 8 ) * 64;
						e.bufferView = VkBufferView( uintptr_t( rng.below( 1000 ) + 1 ) * 16 );
					}
					crg::Buffer buf{ crg::VkBufferArray( e.buffers.begin(), e.buffers.end() ), "buf" };
					auto clear = clearValue();
					auto blend = crg::DefaultBlendState;
					blend.blendEnable = VK_TRUE;
					blend.srcColorBlendFactor = VkBlendFactor( rng.below( 15 ) );
					blend.dstAlphaBlendFactor = VkBlendFactor( rng.below( 15 ) );
					blend.colorWriteMask = rng.below( 16 );
					auto flag = rng.chance( 40 ) ? A::Flag::NoTransition : A::Flag::None;
					auto L = VK_ATTACHMENT_LOAD_OP_LOAD;
					auto C = VK_ATTACHMENT_LOAD_OP_CLEAR;
					auto S = VK_ATTACHMENT_STORE_OP_STORE;
					auto layoutOf = [&]( VkImageLayout l, VkImageLayout s = VK_IMAGE_LAYOUT_MAX_ENUM ){ e.layout = l; e.sepLayout = s == VK_IMAGE_LAYOUT_MAX_ENUM ? l : s; };
					auto & v = e.views;
					bool front = false;
					static VkImageLayout const wanted[]{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, VK_IMAGE_LAYOUT_PRESENT_SRC_KHR };
					auto implicit = [&]( VkImageLayout l )
					{
						e.kind = Kind::Transition; e.in = true; e.suffix = "/Impl"; e.binding = crg::InvalidBindingId;
						layoutOf( l );
						bool shader = l == VK_IMAGE_LAYOUT_GENERAL || l == VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
						e.access = l == VK_IMAGE_LAYOUT_GENERAL ? ShR | ShW : crg::getAccessMask( l );
						e.gfx = shader ? Frag : crg::getStageMask( l );
						e.comp = shader ? Comp : e.gfx;
					};
					auto storage = [&]{ e.kind = Kind::Storage; layoutOf( VK_IMAGE_LAYOUT_GENERAL ); e.access = ( e.in ? ShR : 0 ) | ( e.out ? ShW : 0 ); e.gfx = Frag; e.comp = Comp; e.desc = VK_DESCRIPTOR_TYPE_STORAGE_IMAGE; };
					auto transfer = [&]{ e.kind = Kind::Transfer; e.binding = crg::InvalidBindingId; layoutOf( e.out ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ); e.access = ( e.in ? TR : 0 ) | ( e.out ? TW : 0 ); e.gfx = e.comp = Tra; };
					auto colour = [&]{ e.kind = Kind::Colour; e.binding = 0; layoutOf( VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL ); e.access = ( e.in ? CR : 0 ) | ( e.out ? CW : 0 ); e.gfx = e.comp = Col; e.blend = crg::DefaultBlendState; };
					auto depth = [&]( Kind kk )
					{
						e.kind = kk; e.binding = 0; front = true;
						auto rw = kk == Kind::Depth ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : kk == Kind::Stencil ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
						auto ro = kk == Kind::Depth ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : kk == Kind::Stencil ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
						layoutOf( e.out ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, e.out ? rw : ro );
						e.access = ( e.in ? DR : 0 ) | ( e.out ? DW : 0 );
						e.gfx = e.comp = Dep;
						if ( kk != Kind::Stencil ) { e.load = e.in ? L : C; if ( e.out ) e.store = S; }
						if ( kk != Kind::Depth ) { e.sload = e.in ? L : C; if ( e.out ) e.sstore = S; e.stencilIn = e.in; e.stencilOut = e.out; }
						if ( e.out && !e.in ) e.clearValue = clear;
					};
					bool one = v.size() == 1 && rng.chance( 50 );   // both overloads
					auto bufferKind = [&]( Kind kk, bool uni, bool view ){ e.kind = kk; e.uniform = uni; e.view = view; if ( !view ) e.bufferView = {}; };
					switch ( op )
					{
					case 0: e.kind = Kind::Sampled; e.in = true; e.suffix = "/Spl"; layoutOf( VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL ); e.access = ShR; e.gfx = Frag; e.comp = Comp; e.desc = VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
						e.sampler = crg::SamplerDesc{ VkFilter( rng.below( 2 ) ), VkFilter( rng.below( 2 ) ), VkSamplerMipmapMode( rng.below( 2 ) ), VkSamplerAddressMode( rng.below( 4 ) ), VkSamplerAddressMode( rng.below( 4 ) ), VkSamplerAddressMode( rng.below( 4 ) ), float( rng.below( 5 ) ), float( rng.below( 5 ) ), float( rng.below( 50 ) ) };
						if ( one ) p0.addSampledView( v[0], e.binding, e.sampler ); else p0.addSampledView( v, e.binding, e.sampler );
						break;
					case 1: implicit( wanted[rng.below( 5 )] ); if ( one ) p0.addImplicitColourView( v[0], e.layout ); else p0.addImplicitColourView( v, e.layout ); break;
					case 2: e.in = true; storage(); e.suffix = "/IStr"; if ( one ) p0.addInputStorageView( v[0], e.binding ); else p0.addInputStorageView( v, e.binding ); break;
					case 3: e.out = true; storage(); e.suffix = "/OStr"; if ( one ) p0.addOutputStorageView( v[0], e.binding ); else p0.addOutputStorageView( v, e.binding ); break;
					case 4: e.out = e.clear = true; storage(); e.suffix = "/COStr"; if ( one ) p0.addClearableOutputStorageView( v[0], e.binding ); else p0.addClearableOutputStorageView( v, e.binding ); break;
					case 5: e.in = e.out = true; storage(); e.suffix = "/IOStr"; if ( one ) p0.addInOutStorageView( v[0], e.binding ); else p0.addInOutStorageView( v, e.binding ); break;
					case 6: e.in = true; transfer(); e.suffix = "/It"; if ( one ) p0.addTransferInputView( v[0] ); else p0.addTransferInputView( v ); break;
					case 7: e.out = true; transfer(); e.suffix = "/Ot"; if ( one ) p0.addTransferOutputView( v[0] ); else p0.addTransferOutputView( v ); break;
					case 8: e.in = e.out = true; transfer(); e.suffix = "/IOt"; e.noTransition = flag != A::Flag::None; if ( one ) p0.addTransferInOutView( v[0], flag ); else p0.addTransferInOutView( v, flag ); break;
					case 9: e.in = true; colour(); e.suffix = "/Ic"; e.load = L; if ( one ) p0.addInputColourView( v[0] ); else p0.addInputColourView( v ); break;
					case 10:
						if ( rng.chance( 50 ) ) { e.in = e.out = true; colour(); e.suffix = "/IOc"; e.load = L; e.store = S; e.blend = blend; if ( one ) p0.addInOutColourView( v[0], blend ); else p0.addInOutColourView( v, blend ); }
						else { e.out = true; colour(); e.suffix = "/Oc"; e.load = C; e.store = S; e.clearValue = clear; if ( one ) p0.addOutputColourView( v[0], clear ); else p0.addOutputColourView( v, clear ); }
						break;
					case 11: case 12: implicit( rng.chance( 50 ) ? wanted[rng.below( 7 )] : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL ); if ( one ) p0.addImplicitDepthView( v[0], e.layout ); else p0.addImplicitDepthView( v, e.layout ); break;
					case 13: implicit( wanted[rng.below( 7 )] ); if ( one ) p0.addImplicitDepthStencilView( v[0], e.layout ); else p0.addImplicitDepthStencilView( v, e.layout ); break;
					case 14: e.in = true; depth( Kind::Depth ); e.suffix = "/Id"; if ( one ) p0.addInputDepthView( v[0] ); else p0.addInputDepthView( v ); break;
					case 15: e.in = e.out = true; depth( Kind::Depth ); e.suffix = "/IOd"; if ( one ) p0.addInOutDepthView( v[0] ); else p0.addInOutDepthView( v ); break;
					case 16: e.out = true; depth( Kind::Depth ); e.suffix = "/Od"; if ( one ) p0.addOutputDepthView( v[0], clear ); else p0.addOutputDepthView( v, clear ); break;
					case 17: e.in = true; depth( Kind::DepthStencil ); e.suffix = "/Ids"; if ( one ) p0.addInputDepthStencilView( v[0] ); else p0.addInputDepthStencilView( v ); break;
					case 18: e.in = e.out = true; depth( Kind::DepthStencil ); e.suffix = "/IOds"; if ( one ) p0.addInOutDepthStencilView( v[0] ); else p0.addInOutDepthStencilView( v ); break;
					case 19: e.out = true; depth( Kind::DepthStencil ); e.suffix = "/Ods"; if ( one ) p0.addOutputDepthStencilView( v[0], clear ); else p0.addOutputDepthStencilView( v, clear ); break;
					case 20: e.in = true; depth( Kind::Stencil ); e.suffix = "/Is"; if ( one ) p0.addInputStencilView( v[0] ); else p0.addInputStencilView( v ); break;
					case 21: e.in = e.out = true; depth( Kind::Stencil ); e.suffix = "/IOs"; if ( one ) p0.addInOutStencilView( v[0] ); else p0.addInOutStencilView( v ); break;
					case 22: e.out = true; depth( Kind::Stencil ); e.suffix = "/Os"; if ( one ) p0.addOutputStencilView( v[0], clear ); else p0.addOutputStencilView( v, clear ); break;
					default:
						{
							bool view = op >= 31 && op < 37;
							crg::AccessState st{ rng.chance( 50 ) ? ShR : VkAccessFlags( VK_ACCESS_VERTEX_ATTRIBUTE_READ_BIT ), rng.chance( 50 ) ? VkPipelineStageFlags( VK_PIPELINE_STAGE_VERTEX_INPUT_BIT ) : Frag };
							int b = view ? op - 31 : op - 23;
							static char const * const names[]{ "/ImplB", "/UB", "/ISB", "/OSB", "/OSB", "/IOSB", "/ITB", "/OTB", "/IOTB" };
							if ( op == 37 ) b = 8;
							e.suffix = std::string( names[b] ) + ( view ? "V" : "" );
							e.gfx = b == 0 ? st.pipelineStage : b >= 6 ? Tra : Frag;
							e.comp = b == 0 ? st.pipelineStage : b >= 6 ? Tra : Comp;
							e.in = b == 0 || b == 1 || b == 2 || b == 5 || b == 6 || b == 8;
							e.out = b == 3 || b == 4 || b == 5 || b == 7 || b == 8;
							e.clear = b == 4;
							e.access = b == 0 ? st.access : b >= 6 ? ( e.in ? TR : 0 ) | ( e.out ? TW : 0 ) : b == 1 && !view ? VkAccessFlags( VK_ACCESS_UNIFORM_READ_BIT ) : ( e.in ? ShR : 0 ) | ( e.out ? ShW : 0 );
							bufferKind( b == 0 ? Kind::Transition : b >= 6 ? Kind::Transfer : Kind::Storage, b == 1, view );
							if ( b == 0 || b >= 6 ) e.binding = crg::InvalidBindingId;
							else e.desc = view ? ( b == 1 ? VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER ) : ( b == 1 ? VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER : VK_DESCRIPTOR_TYPE_STORAGE_BUFFER );
							auto o = e.offset, r = e.range;
							auto bv = e.bufferView;
							switch ( b )
							{
							case 0: if ( view ) p0.addImplicitBufferView( buf, bv, o, r, st ); else p0.addImplicitBuffer( buf, o, r, st ); break;
							case 1: if ( view ) p0.addUniformBufferView( buf, bv, e.binding, o, r ); else p0.addUniformBuffer( buf, e.binding, o, r ); break;
							case 2: if ( view ) p0.addInputStorageBufferView( buf, bv, e.binding, o, r ); else p0.addInputStorageBuffer( buf, e.binding, o, r ); break;
							case 3: if ( view ) p0.addOutputStorageBufferView( buf, bv, e.binding, o, r ); else p0.addOutputStorageBuffer( buf, e.binding, o, r ); break;
							case 4: if ( view ) p0.addClearableOutputStorageBufferView( buf, bv, e.binding, o, r ); else p0.addClearableOutputStorageBuffer( buf, e.binding, o, r ); break;
							case 5: if ( view ) p0.addInOutStorageBufferView( buf, bv, e.binding, o, r ); else p0.addInOutStorageBuffer( buf, e.binding, o, r ); break;
							case 6: p0.addTransferInputBuffer( buf, o, r ); break;
							case 7: p0.addTransferOutputBuffer( buf, o, r ); break;
							default: e.noTransition = flag != A::Flag::None; p0.addTransferInOutBuffer( buf, o, r, flag ); break;
							}
						}
					}
					c.note( uint64_t( op ) * 64 + e.views.size() * 8 + e.buffers.size() );
					e.what = "attachment " + e.suffix.substr( 1 );
					auto & l = e.image ? images : buffers;
					if ( front ) l.insert( l.begin(), e ); else l.push_back( e );
				}
				if ( p0.images.size() != images.size() || p0.buffers.size() != buffers.size() ) { bad( "decl", "attachments", "the pass does not have the attachments it was given" ); return; }
				for ( size_t i = 0; i < images.size(); ++i ) checkAttach( p0, p0.images[i], images[i] );
				for ( size_t i = 0; i < buffers.size(); ++i ) checkAttach( p0, p0.buffers[i], buffers[i] );
				// an attachment equals itself only
				auto same = [&]( A const & a, A const & b, Expect const & x, Expect const & y )
				{
					bool r = x.image == y.image && x.kind == y.kind && x.in == y.in && x.out == y.out && x.clear == y.clear && x.noTransition == y.noTransition && x.views == y.views && x.buffers == y.buffers && x.uniform == y.uniform && x.view == y.view
						&& x.bufferView == y.bufferView && x.offset == y.offset && x.range == y.range && x.load == y.load && x.store == y.store && x.sload == y.sload && x.sstore == y.sstore && x.sampler == y.sampler && !memcmp( &x.clearValue, &y.clearValue, sizeof( VkClearValue ) ) && !memcmp( &x.blend, &y.blend, sizeof( x.blend ) );
					if ( ( a == b ) != r && !( x.kind == Kind::Transition ) ) bad( "decl", "equality", "two attachments are wrongly told to be " + std::string( r ? "different" : "equal" ) );
				};
				for ( size_t i = 0; i < images.size(); ++i ) for ( size_t j = 0; j < images.size(); ++j ) same( p0.images[i], p0.images[j], images[i], images[j] );
				for ( size_t i = 0; i < buffers.size(); ++i ) for ( size_t j = 0; j < buffers.size(); ++j ) same( p0.buffers[i], p0.buffers[j], buffers[i], buffers[j] );
				// nor one which differs by a single field
				for ( size_t i = 0; i < images.size(); ++i ) nearMiss( p0.images[i], images[i] );
				for ( size_t i = 0; i < buffers.size(); ++i ) nearMiss( p0.buffers[i], buffers[i] );
			}

			template< typename T >
			static void next( T & v ) { v = T( uint64_t( v ) ^ 1u ); }

			void nearMiss( A const & a, Expect const & e )
			{
				A b = a;
				if ( !( a == b ) ) bad( "decl", "equality", "the copy of the " + e.what + " is told to be different" );
				auto & x = b.imageAttach;
				uint32_t n = 0;
				char const * field = "";
				auto pick = [&]( uint32_t k, char const * f ){ bool r = n == k; if ( r ) field = f; return r; };
				if ( e.image )
				{
					n = rng.below( 26 );
					if ( pick( 0, "load" ) ) next( x.loadOp );
					if ( pick( 1, "store" ) ) next( x.storeOp );
					if ( pick( 2, "stencilLoad" ) ) next( x.stencilLoadOp );
					if ( pick( 3, "stencilStore" ) ) next( x.stencilStoreOp );
					if ( pick( 4, "mag" ) ) next( x.samplerDesc.magFilter );
					if ( pick( 5, "min" ) ) next( x.samplerDesc.minFilter );
					if ( pick( 6, "mipmap" ) ) next( x.samplerDesc.mipmapMode );
					if ( pick( 7, "u" ) ) next( x.samplerDesc.addressModeU );
					if ( pick( 8, "v" ) ) next( x.samplerDesc.addressModeV );
					if ( pick( 9, "w" ) ) next( x.samplerDesc.addressModeW );
					if ( pick( 10, "bias" ) ) x.samplerDesc.mipLodBias += 1.0f;
					if ( pick( 11, "minLod" ) ) x.samplerDesc.minLod += 1.0f;
					if ( pick( 12, "maxLod" ) ) x.samplerDesc.maxLod += 1.0f;
					if ( n >= 13 && n < 17 ) { x.clearValue.color.uint32[n - 13] ^= 0x10u; field = "clear"; }
					if ( pick( 17, "blend" ) ) next( x.blendState.blendEnable );
					if ( pick( 18, "srcColour" ) ) next( x.blendState.srcColorBlendFactor );
					if ( pick( 19, "dstColour" ) ) next( x.blendState.dstColorBlendFactor );
					if ( pick( 20, "colourOp" ) ) next( x.blendState.colorBlendOp );
					if ( pick( 21, "srcAlpha" ) ) next( x.blendState.srcAlphaBlendFactor );
					if ( pick( 22, "dstAlpha" ) ) next( x.blendState.dstAlphaBlendFactor );
					if ( pick( 23, "alphaOp" ) ) next( x.blendState.alphaBlendOp );
					if ( pick( 24, "write" ) ) next( x.blendState.colorWriteMask );
					if ( pick( 25, "views" ) ) x.views.pop_back();
				}
				else
				{
					n = rng.below( 3 );
					if ( pick( 0, "offset" ) ) b.bufferAttach.range.offset ^= 256u;
					if ( pick( 1, "size" ) ) b.bufferAttach.range.size ^= 256u;
					if ( pick( 2, "view" ) ) b.bufferAttach.view = VkBufferView( uintptr_t( b.bufferAttach.view ) ^ 0x100u );
				}
				c.stats.add( "near misses compared" );
				if ( a == b || b == a ) bad( "decl", "equality", "the " + e.what + " is told to be equal to one which has another " + field );
			}

			void checkAttach( crg::FramePass const & p, A const & a, Expect const & e )
			{
				auto & w = e.what;
				auto img = [&]( Kind k ){ return e.image && e.kind == k; };
				bool dep = img( Kind::Depth ) || img( Kind::DepthStencil ), ste = img( Kind::Stencil ) || img( Kind::DepthStencil ), col = img( Kind::Colour );
				bool sto = img( Kind::Storage ), tra = img( Kind::Transfer );
				c.stats.add( "attachment descriptions checked" );
				if ( a.pass != &p || a.isImage() != e.image || a.isBuffer() == e.image || a.isInput() != e.in || a.isOutput() != e.out || a.isInOut() != ( e.in && e.out ) || a.isClearable() != e.clear || a.isNoTransition() != e.noTransition )
					bad( "decl", "use", "wrong use of the " + w );
				if ( a.binding != e.binding ) bad( "decl", "binding", "the " + w + " has the binding " + std::to_string( a.binding ) + " instead of " + std::to_string( e.binding ) );
				if ( a.name.size() < e.suffix.size() || a.name.compare( a.name.size() - e.suffix.size(), e.suffix.size(), e.suffix ) ) bad( "decl", "name", "the " + w + " is named " + a.name );
				if ( a.isSampledView() != img( Kind::Sampled ) || a.isTransitionView() != img( Kind::Transition ) || a.isStorageView() != sto || a.isTransferView() != tra
					|| a.isStorageInputView() != ( sto && e.in ) || a.isStorageOutputView() != ( sto && e.out ) || a.isTransferInputView() != ( tra && e.in ) || a.isTransferOutputView() != ( tra && e.out )
					|| a.isColourAttach() != col || a.isColourInputAttach() != ( col && e.in ) || a.isColourOutputAttach() != ( col && e.out ) || a.isColourInOutAttach() != ( col && e.in && e.out )
					|| a.isDepthAttach() != dep || a.isDepthInputAttach() != ( dep && e.in ) || a.isDepthOutputAttach() != ( dep && e.out ) || a.isDepthInOutAttach() != ( dep && e.in && e.out )
					|| a.isStencilAttach() != ste || a.isStencilInputAttach() != ( ste && e.stencilIn ) || a.isStencilOutputAttach() != ( ste && e.stencilOut ) || a.isStencilInOutAttach() != ( ste && e.stencilIn && e.stencilOut )
					|| a.isDepthStencilInputAttach() != ( dep && ste && e.in ) || a.isDepthStencilOutputAttach() != ( dep && ste && e.out ) || a.isDepthStencilInOutAttach() != ( dep && ste && e.in && e.out )
					|| a.isStencilClearingAttach() || a.isClearableImage() != ( e.image && e.clear ) )
					bad( "decl", "image-kind", "wrong kind of the " + w );
				auto buf = [&]( Kind k ){ return !e.image && e.kind == k; };
				if ( a.isUniformBuffer() != ( !e.image && e.uniform ) || a.isUniformBufferView() != ( !e.image && e.uniform && e.view ) || a.isStorageBuffer() != ( buf( Kind::Storage ) && !e.uniform ) || a.isStorageBufferView() != ( buf( Kind::Storage ) && !e.uniform && e.view )
					|| a.isTransferBuffer() != buf( Kind::Transfer ) || a.isTransferInputBuffer() != ( buf( Kind::Transfer ) && e.in ) || a.isTransferOutputBuffer() != ( buf( Kind::Transfer ) && e.out )
					|| a.isTransitionBuffer() != buf( Kind::Transition ) || a.isTransitionBufferView() != ( buf( Kind::Transition ) && e.view ) || a.isBufferView() != ( !e.image && e.view ) || a.isClearableBuffer() != ( !e.image && e.clear ) )
					bad( "decl", "buffer-kind", "wrong kind of the " + w );
				if ( a.getAccessMask() != e.access ) bad( "table", "access", "the " + w + " has the accesses " + std::to_string( a.getAccessMask() ) + " instead of " + std::to_string( e.access ) );
				if ( a.getPipelineStageFlags( false ) != e.gfx || a.getPipelineStageFlags( true ) != e.comp ) bad( "table", "stages", "the " + w + " has the stages " + std::to_string( a.getPipelineStageFlags( false ) ) + "/" + std::to_string( a.getPipelineStageFlags( true ) ) );
				if ( e.desc != VK_DESCRIPTOR_TYPE_MAX_ENUM && a.getDescriptorType() != e.desc ) bad( "table", "descriptor", "wrong descriptor type of the " + w );
				if ( e.image )
				{
					if ( a.getViewCount() != e.views.size() || a.getBufferCount() != 0 ) { bad( "decl", "count", "wrong count of views of the " + w ); return; }
					for ( uint32_t i = 0; i < 4; ++i )
					{
						if ( i >= e.views.size() && e.views.size() != 1 ) break;
						if ( a.view( i ) != e.views[e.views.size() == 1 ? 0 : i] ) bad( "decl", "view", "wrong view of the " + w + " for the index " + std::to_string( i ) );
					}
					if ( a.buffer() != VkBuffer{} ) bad( "decl", "buffer", "the " + w + " has a buffer" );
					if ( a.getImageLayout( false ) != e.layout ) bad( "table", "layout", "the " + w + " wants the layout " + std::to_string( a.getImageLayout( false ) ) + " instead of " + std::to_string( e.layout ) );
					if ( a.getImageLayout( true ) != e.sepLayout ) bad( "table", "separate-layout", "the " + w + " wants the layout " + std::to_string( a.getImageLayout( true ) ) + " instead of " + std::to_string( e.sepLayout ) );
					if ( a.getLoadOp() != e.load || a.getStoreOp() != e.store || a.getStencilLoadOp() != e.sload || a.getStencilStoreOp() != e.sstore ) bad( "decl", "operations", "wrong load or store operations of the " + w );
					auto cv = a.getClearValue();
					if ( memcmp( &cv, &e.clearValue, sizeof( cv ) ) ) bad( "decl", "clear", "wrong clear value of the " + w );
					auto bs = a.getBlendState();
					if ( e.kind == Kind::Colour && memcmp( &bs, &e.blend, sizeof( bs ) ) ) bad( "decl", "blend", "wrong blend state of the " + w );
					if ( !( a.getSamplerDesc() == e.sampler ) ) bad( "decl", "sampler", "wrong sampler of the " + w );
				}
				else
				{
					if ( a.getBufferCount() != e.buffers.size() || a.getViewCount() != 0 ) { bad( "decl", "count", "wrong count of buffers of the " + w ); return; }
					auto r = a.getBufferRange();
					if ( r.offset != e.offset || r.size != e.range ) bad( "decl", "range", "wrong range of the " + w );
					if ( a.view() != crg::ImageViewId{} ) bad( "decl", "view", "the " + w + " has a view" );
					for ( uint32_t i = 0; i < 4; ++i )
					{
						if ( i >= e.buffers.size() && e.buffers.size() != 1 ) break;
						auto want = e.buffers[e.buffers.size() == 1 ? 0 : i];
						if ( a.buffer( i ) != want ) bad( "decl", "buffer", "wrong buffer of the " + w + " for the index " + std::to_string( i ) );
						auto wr = a.getBufferWrite( i );
						VkDescriptorBufferInfo const * info = wr.bufferInfo.size() == 1 ? &wr.bufferInfo[0] : wr.bufferViewInfo.size() == 1 ? &wr.bufferViewInfo[0] : nullptr;
						if ( wr->dstBinding != e.binding || wr->descriptorCount != 1 || wr->dstArrayElement != 0 || ( e.desc != VK_DESCRIPTOR_TYPE_MAX_ENUM && wr->descriptorType != e.desc )
							|| ( e.view != !wr.texelBufferView.empty() ) || ( e.view && wr.texelBufferView[0] != e.bufferView ) || !info || info->buffer != want || info->offset != e.offset || info->range != e.range )
							bad( "decl", "write", "wrong descriptor of the " + w );
					}
				}
			}

			//**** tables ****

			void formats()
			{
				std::map< VkFormat, VkImageAspectFlags > const depth{ { VK_FORMAT_D16_UNORM, 2 }, { VK_FORMAT_X8_D24_UNORM_PACK32, 2 }, { VK_FORMAT_D32_SFLOAT, 2 }, { VK_FORMAT_S8_UINT, 4 }, { VK_FORMAT_D16_UNORM_S8_UINT, 6 }, { VK_FORMAT_D24_UNORM_S8_UINT, 6 }, { VK_FORMAT_D32_SFLOAT_S8_UINT, 6 } };
				auto one = [&]( VkFormat f )
				{
					auto it = depth.find( f );
					VkImageAspectFlags want = it == depth.end() ? VkImageAspectFlags( VK_IMAGE_ASPECT_COLOR_BIT ) : it->second;
					bool d = want & 2, s = want & 4;
					if ( crg::getAspectMask( f ) != want ) bad( "table", "aspects", "wrong aspects of the format " + std::to_string( f ) );
					if ( crg::isDepthFormat( f ) != d || crg::isStencilFormat( f ) != s || crg::isColourFormat( f ) != ( want == 1 ) || crg::isDepthStencilFormat( f ) != ( d && s ) ) bad( "table", "format", "wrong kind of the format " + std::to_string( f ) );
					c.stats.add( "formats checked" );
				};
				for ( int f = 1; f <= 184; ++f ) one( VkFormat( f ) );
				for ( int k = 0; k < 20; ++k ) one( VkFormat( 1000000000 + int( rng.below( 1000 ) ) * 1000 + int( rng.below( 40 ) ) ) );
			}

			void layouts()
			{
				struct L { VkImageLayout l; VkAccessFlags must, may; VkPipelineStageFlags stages; };
				static L const known[]
				{
					{ VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, CW, CR, Col },
					{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, DW, DR, Dep },
					{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL, DR, ShR, Dep | Frag },
					{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, ShR, 0, Frag | Comp },
					{ VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, TR, 0, Tra },
					{ VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, TW, 0, Tra },
					{ VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL, DR | DW, ShR, Dep | Frag },
					{ VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL, DR | DW, ShR, Dep | Frag },
					{ VK_IMAGE_LAYOUT_PRESENT_SRC_KHR, 0, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
					{ VK_IMAGE_LAYOUT_SHARED_PRESENT_KHR, 0, VK_ACCESS_MEMORY_READ_BIT, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT },
				};
				for ( auto & x : known )
				{
					auto a = crg::getAccessMask( x.l );
					auto s = crg::getStageMask( x.l );
					std::string n = std::to_string( x.l );
					if ( ( a & x.must ) != x.must || ( a & ~( x.must | x.may ) ) ) bad( "table", "layout-access", "wrong accesses " + std::to_string( a ) + " for the layout " + n );
					if ( !s || ( s & ~x.stages ) ) bad( "table", "layout-stages", "wrong stages " + std::to_string( s ) + " for the layout " + n );
					for ( uint32_t b = 1; b && b <= a; b <<= 1 ) if ( ( a & b ) && !stageAllows( s, VkAccessFlagBits( b ) ) ) bad( "table", "layout-pair", "the stages of the layout " + n + " can not do its accesses" );
					auto st = crg::makeLayoutState( x.l );
					if ( st.layout != x.l || st.state.access != a || st.state.pipelineStage != s ) bad( "table", "layout-state", "wrong state of the layout " + n );
					c.stats.add( "layouts checked" );
				}
				// stages: the accesses are the union of those of each stage, and ones it can do
				VkPipelineStageFlags flags = 0;
				VkAccessFlags sum = 0;
				for ( int k = 0; k < 40; ++k )
				{
					static VkPipelineStageFlags const bits[]{ VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT, Col, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT, VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT, Frag, Tra, Comp, VK_PIPELINE_STAGE_HOST_BIT, VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT };
					if ( rng.chance( 25 ) ) { flags = 0; sum = 0; }
					auto b = bits[rng.below( 11 )];
					auto one = crg::getPipelineState( b );
					if ( one.pipelineStage != b ) bad( "table", "stage-state", "a pipeline state does not have the stages it was asked for" );
					VkAccessFlags must = b == Col ? CR | CW : b == VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT ? DR | DW : b == Frag || b == Comp ? ShR : b == Tra ? TR | TW : 0;
					if ( ( one.access & must ) != must ) bad( "table", "stage-access", "wrong accesses for the stage " + std::to_string( b ) );
					for ( uint32_t x = 1; x && x <= one.access; x <<= 1 ) if ( ( one.access & x ) && !stageAllows( b, VkAccessFlagBits( x ) ) ) bad( "table", "stage-access", "impossible accesses for the stage " + std::to_string( b ) );
					flags |= b;
					sum |= one.access;
					auto all = crg::getPipelineState( flags );
					if ( all.pipelineStage != flags || all.access != sum ) bad( "table", "stage-union", "wrong accesses for the stages " + std::to_string( flags ) );
					c.stats.add( "stages checked" );
				}
			}

			void ranges()
			{
				for ( int k = 0; k < 12; ++k )
				{
					auto img = makeImage( rng.chance( 30 ), int( rng.below( 3 ) ) );
					auto a = makeView( img, img.aspects ), b = rng.chance( 70 ) ? makeView( img, img.aspects ) : makeView( rng.pick( imgs ), VK_IMAGE_ASPECT_COLOR_BIT );
					auto key = [&]( crg::ImageViewId const & v )
					{
						auto r = v.data->info.subresourceRange;
						return std::make_tuple( v.data->image.id, v.data->info.format, r.baseMipLevel, r.levelCount, r.baseArrayLayer, r.layerCount );
					};
					bool aspects = ( a.data->info.subresourceRange.aspectMask & b.data->info.subresourceRange.aspectMask ) != 0;
					bool want = key( a ) == key( b ) && aspects;
					if ( crg::match( *a.data, *b.data ) != want || crg::match( *b.data, *a.data ) != want || !crg::match( *a.data, *a.data ) ) bad( "table", "match", "two views are wrongly told to " + std::string( want ? "differ" : "match" ) );
					for ( auto & v : { a, b } )
					{
						auto r = v.data->info.subresourceRange;
						auto type = v.data->info.viewType;
						auto vr = crg::getVirtualRange( v.data->image, type, r );
						bool d3 = type == VK_IMAGE_VIEW_TYPE_3D;
						auto slices = std::max( 1u, v.data->image.data->info.extent.depth >> r.baseMipLevel );
						if ( vr.aspectMask != r.aspectMask || vr.baseMipLevel != r.baseMipLevel || vr.levelCount != r.levelCount || vr.baseArrayLayer != ( d3 ? 0 : r.baseArrayLayer ) || vr.layerCount != ( d3 ? slices : r.layerCount ) )
							bad( "table", "virtual-range", "wrong range of the slices or layers of a view" );
						// the listed subresources are a partition of the range
						std::multiset< std::pair< uint32_t, uint32_t > > seen;
						for ( auto & s : crg::listSubresources( type, vr ) )
						{
							if ( s.levelCount != 1 || s.aspectMask != vr.aspectMask || ( !d3 && s.layerCount != 1 ) ) bad( "table", "subresource", "a listed subresource is not a single one" );
							for ( uint32_t l = 0; l < s.layerCount; ++l ) seen.insert( { s.baseMipLevel, s.baseArrayLayer + l } );
						}
						std::multiset< std::pair< uint32_t, uint32_t > > all;
						for ( uint32_t m = 0; m < vr.levelCount; ++m ) for ( uint32_t l = 0; l < vr.layerCount; ++l ) all.insert( { vr.baseMipLevel + m, vr.baseArrayLayer + l } );
						if ( seen != all ) bad( "table", "subresources", "the listed subresources are not those of the range" );
						if ( crg::resolveView( v, rng.below( 3 ) ) != v ) bad( "table", "resolve", "a plain view is resolved to another one" );
						c.stats.add( "ranges checked" );
					}
				}
			}
		};
	}

	void tablesCase( Case & c )
	{
		TablesCase t{ c };
		t.formats();
		t.layouts();
		t.ranges();
		t.attachments();
		c.summary = "formats, layouts and stages, 12 pairs of views, and one pass with attachments of random kinds";
	}
}
