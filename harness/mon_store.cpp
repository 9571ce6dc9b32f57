// Layout and access states, and the barriers and implicit actions of a RecordContext used directly, against a reference model.
#include "cases.hpp"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/LayerLayoutStatesHandler.hpp>
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <tuple>

namespace mon
{
	namespace
	{
		using crg::LayoutState;
		using crg::AccessState;
		using Cell = std::tuple< int, uint32_t, uint32_t >;   // image, layer, level
		using Cells = std::map< Cell, LayoutState >;

		bool same( AccessState const & a, AccessState const & b ) { return a.access == b.access && a.pipelineStage == b.pipelineStage; }
		bool same( LayoutState const & a, LayoutState const & b ) { return a.layout == b.layout && same( a.state, b.state ); }
		bool writes( VkAccessFlags a )
		{
			return ( a & ( VK_ACCESS_SHADER_WRITE_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_TRANSFER_WRITE_BIT
				| VK_ACCESS_HOST_WRITE_BIT | VK_ACCESS_MEMORY_WRITE_BIT ) ) != 0;
		}
		bool depthStencil( VkFormat f ) { return isDepthFmt( f ) && isStencilFmt( f ); }

		struct Model
		{
			Cells cells;
			std::map< VkBuffer, AccessState > buffers;
		};

		struct StoreCase
		{
			struct Img { crg::ImageId id; VkImageCreateInfo ci; bool is3D; };
			struct View { int img; crg::ImageViewId id; VkImageViewType type; VkImageSubresourceRange r; };
			struct Ctx { crg::RecordContext rc; Model m; };

			Case & c;
			Rng & rng;
			Driver drv;
			std::unique_ptr< crg::GraphContext > ctx;
			std::unique_ptr< crg::ResourceHandler > handler;
			std::unique_ptr< crg::ContextResourcesCache > cache;
			std::unique_ptr< crg::FrameGraph > graph;
			Model inputs, outputs;
			std::vector< Img > imgs;
			std::vector< VkBuffer > bufs;
			std::vector< Ctx > ctxs;
			bool sepDS{};
			VkCommandPool pool{};
			VkCommandBuffer cb{};
			std::string log;

			explicit StoreCase( Case & pc ) : c{ pc }, rng{ pc.rng } {}
			void op( std::string const & s ) { log += s + "; "; c.note( std::hash< std::string >{}( s ) ); }
			void bad( char const * cat, char const * sig, std::string const & m ) { c.viol( cat, sig, m + ": " + log.substr( log.size() > 300 ? log.size() - 300 : 0 ) ); }

			VkImageAspectFlags aspects( VkFormat f )
			{
				return depthStencil( f ) ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : isDepthFmt( f ) ? VK_IMAGE_ASPECT_DEPTH_BIT : isStencilFmt( f ) ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
			}

			View makeView( int k = -1, bool oneLevel = false )
			{
				if ( k < 0 ) k = int( rng.below( uint32_t( imgs.size() ) ) );
				auto & i = imgs[size_t( k )];
				View v{};
				v.img = k;
				v.r.aspectMask = aspects( i.ci.format );
				v.r.baseMipLevel = rng.below( i.ci.mipLevels );
				v.r.levelCount = oneLevel ? 1 : rng.range( 1, i.ci.mipLevels - v.r.baseMipLevel );
				v.r.baseArrayLayer = rng.below( i.ci.arrayLayers );
				v.r.layerCount = rng.range( 1, i.ci.arrayLayers - v.r.baseArrayLayer );
				v.type = i.is3D ? VK_IMAGE_VIEW_TYPE_3D : v.r.layerCount > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
				// one aspect of a depth stencil image stands for both when their layouts are not separate
				if ( depthStencil( i.ci.format ) && !sepDS && rng.chance( 40 ) ) v.r.aspectMask = rng.chance( 50 ) ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
				v.id = handler->createViewId( crg::ImageViewData{ "v", i.id, 0, v.type, i.ci.format, v.r } );
				return v;
			}

			std::vector< Cell > cellsOf( View const & v )
			{
				std::vector< Cell > r;
				for ( uint32_t l = 0; l < v.r.layerCount; ++l )
					for ( uint32_t m = 0; m < v.r.levelCount; ++m )
						r.emplace_back( v.img, v.r.baseArrayLayer + l, v.r.baseMipLevel + m );
				return r;
			}

			LayoutState makeState( Img const & i )
			{
				static AccessState const shader[]
				{
					{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
					{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT },
					{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_VERTEX_SHADER_BIT | VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
					{ VK_ACCESS_INPUT_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
				};
				switch ( rng.below( 7 ) )
				{
				case 0: return { VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, shader[rng.below( 4 )] };
				case 1: return { VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, { VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
				case 2: return { VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, { VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT } };
				case 3: return { VK_IMAGE_LAYOUT_GENERAL, { VkAccessFlags( VK_ACCESS_SHADER_READ_BIT | ( rng.chance( 50 ) ? VK_ACCESS_SHADER_WRITE_BIT : 0 ) ), VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } };
				case 4: return isDepthFmt( i.ci.format )
					? LayoutState{ VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL, { VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT, VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT } }
					: LayoutState{ VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL, { VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT } };
				case 5: return crg::makeLayoutState( isDepthFmt( i.ci.format ) ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL );
				default: return crg::makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
				}
			}
			AccessState makeAccess()
			{
				static AccessState const t[]
				{
					{ VK_ACCESS_UNIFORM_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
					{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT },
					{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT },
					{ VK_ACCESS_SHADER_WRITE_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT },
					{ VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
					{ VK_ACCESS_TRANSFER_WRITE_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT },
					{ VK_ACCESS_INDIRECT_COMMAND_READ_BIT, VK_PIPELINE_STAGE_DRAW_INDIRECT_BIT },
					{ VK_ACCESS_HOST_WRITE_BIT, VK_PIPELINE_STAGE_HOST_BIT },
					{ VK_ACCESS_MEMORY_WRITE_BIT, VK_PIPELINE_STAGE_ALL_COMMANDS_BIT },
				};
				return t[rng.below( 9 )];
			}

			// what a query over these cells has to answer
			void checkQuery( Cells const & cells, View const & v, LayoutState const & got, char const * what )
			{
				std::map< VkImageLayout, AccessState > states;
				for ( auto & cell : cellsOf( v ) )
					if ( auto it = cells.find( cell ); it != cells.end() )
					{
						auto & s = states[it->second.layout];
						s.access |= it->second.state.access;
						s.pipelineStage |= it->second.state.pipelineStage;
					}
				c.stats.add( "state queries checked" );
				if ( states.empty() )
				{
					if ( got.layout != VK_IMAGE_LAYOUT_UNDEFINED ) bad( "store", "unknown", std::string( what ) + " which was never set is " + layoutName( got.layout ) );
					return;
				}
				auto it = states.find( got.layout );
				if ( it == states.end() )
					bad( "store", "layout", std::string( what ) + " is " + layoutName( got.layout ) + " instead of " + layoutName( states.begin()->first ) );
				else if ( !same( it->second, got.state ) )
					bad( "store", "access", std::string( what ) + " is accessed by " + std::to_string( got.state.access ) + "/" + std::to_string( got.state.pipelineStage ) + " instead of "
						+ std::to_string( it->second.access ) + "/" + std::to_string( it->second.pipelineStage ) );
			}

			void checkAll( Ctx & x, char const * what )
			{
				for ( size_t k = 0; k < imgs.size(); ++k )
					for ( uint32_t l = 0; l < imgs[k].ci.arrayLayers; ++l )
						for ( uint32_t m = 0; m < imgs[k].ci.mipLevels; ++m )
						{
							View v{ int( k ), {}, imgs[k].is3D ? VK_IMAGE_VIEW_TYPE_3D : VK_IMAGE_VIEW_TYPE_2D, { aspects( imgs[k].ci.format ), m, 1, l, 1 } };
							checkQuery( x.m.cells, v, x.rc.getLayoutState( imgs[k].id, v.type, v.r ), what );
						}
				for ( auto b : bufs )
				{
					auto it = x.m.buffers.find( b );
					AccessState e{ 0, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
					if ( it != x.m.buffers.end() ) e = it->second;
					if ( !same( e, x.rc.getAccessState( b, { 0, VK_WHOLE_SIZE } ) ) ) bad( "store", "buffer", std::string( what ) + ": the access state of a buffer is not the one last set" );
					c.stats.add( "state queries checked" );
				}
			}

			// puts the image really in that layout, as someone else would
			void reality( View const & v, VkImageLayout l )
			{
				auto o = drv.find( cache->createImage( imgs[size_t( v.img )].id ), T::Image );
				auto r = v.r;
				r.aspectMask = aspects( imgs[size_t( v.img )].ci.format );
				if ( o ) drv.forRange( *o, r, [&]( Sub & s, uint32_t a, uint32_t, uint32_t ){ s.layout = drv.normLayout( l, a, isDepthFmt( o->imgCI.format ) ); } );
			}

			std::vector< Cmd const * > newCmds( size_t from )
			{
				std::vector< Cmd const * > r;
				auto o = drv.find( cb, T::CmdBuf );
				for ( size_t k = from; o && k < o->cmds.size(); ++k ) r.push_back( &o->cmds[k] );
				return r;
			}
			size_t cmdCount() { auto o = drv.find( cb, T::CmdBuf ); return o ? o->cmds.size() : 0; }

			void imageBarrier( Ctx & x )
			{
				auto v = makeView();
				auto & i = imgs[size_t( v.img )];
				auto wanted = makeState( i );
				// often what it is already in: a barrier is needed only if something is written
				if ( auto again = x.m.cells.find( *cellsOf( v ).begin() ); again != x.m.cells.end() && again->second.layout != VK_IMAGE_LAYOUT_UNDEFINED && rng.chance( 25 ) ) wanted = again->second;
				bool force = rng.chance( 20 );
				if ( rng.chance( 5 ) && !force ) wanted.layout = VK_IMAGE_LAYOUT_UNDEFINED;
				// what is not tracked is in a layout which the caller tells
				VkImageLayout initial = rng.chance( 50 ) ? VK_IMAGE_LAYOUT_UNDEFINED : rng.chance( 50 ) ? VK_IMAGE_LAYOUT_GENERAL : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
				std::map< Cell, LayoutState > from;
				for ( auto & cell : cellsOf( v ) )
				{
					auto it = x.m.cells.find( cell );
					if ( it != x.m.cells.end() && it->second.layout != VK_IMAGE_LAYOUT_UNDEFINED ) from[cell] = it->second;
					else from[cell] = LayoutState{ initial, { crg::getAccessMask( initial ), crg::getStageMask( initial ) } };
					// nobody else uses the image between two record contexts of this case
					View one{ v.img, {}, v.type, { v.r.aspectMask, std::get< 2 >( cell ), 1, std::get< 1 >( cell ), 1 } };
					pending.push_back( { one, from[cell].layout } );
				}
				auto before = cmdCount();
				op( "barrier i" + std::to_string( v.img ) + " " + std::to_string( v.r.baseArrayLayer ) + "+" + std::to_string( v.r.layerCount ) + "," + std::to_string( v.r.baseMipLevel ) + "+" + std::to_string( v.r.levelCount )
					+ " from " + layoutName( initial ) + " to " + layoutName( wanted.layout ) + ( force ? " forced" : "" ) );
				bool shortForm = initial == VK_IMAGE_LAYOUT_UNDEFINED && rng.chance( 60 );
				switch ( rng.below( 3 ) )
				{
				case 0:
					if ( shortForm ) x.rc.memoryBarrier( cb, v.id, wanted, force ); else x.rc.memoryBarrier( cb, v.id, initial, wanted, force );
					break;
				case 1:
					if ( shortForm ) x.rc.memoryBarrier( cb, i.id, v.r, wanted, force ); else x.rc.memoryBarrier( cb, i.id, v.r, initial, wanted, force );
					break;
				default:
					if ( shortForm ) x.rc.memoryBarrier( cb, i.id, v.type, v.r, wanted, force ); else x.rc.memoryBarrier( cb, i.id, v.type, v.r, initial, wanted, force );
				}
				std::map< Cell, int > seen;
				auto h = cache->createImage( i.id );
				for ( auto cmd : newCmds( before ) )
				{
					if ( cmd->op != Op::Barrier ) { bad( "store", "command", "a barrier recorded another command" ); continue; }
					for ( auto & b : cmd->imgB )
					{
						if ( b.image != h ) { bad( "store", "barrier-image", "a barrier names another image" ); continue; }
						if ( b.subresourceRange.aspectMask != ( sepDS ? v.r.aspectMask : aspects( i.ci.format ) ) ) bad( "store", "barrier-aspect", "a barrier is not for the aspects of the image" );
						View bv{ v.img, {}, v.type, b.subresourceRange };
						for ( auto & cell : cellsOf( bv ) )
						{
							auto it = from.find( cell );
							if ( it == from.end() ) { bad( "store", "barrier-range", "a barrier covers a subresource it was not asked for" ); continue; }
							++seen[cell];
							auto & f = it->second;
							if ( b.oldLayout != f.layout ) bad( "store", "barrier-from", std::string( "a barrier is from " ) + layoutName( b.oldLayout ) + " instead of " + layoutName( f.layout ) );
							if ( b.newLayout != wanted.layout ) bad( "store", "barrier-to", std::string( "a barrier is to " ) + layoutName( b.newLayout ) + " instead of " + layoutName( wanted.layout ) );
							if ( ( b.srcAccessMask & f.state.access ) != f.state.access || ( cmd->src & f.state.pipelineStage ) != f.state.pipelineStage ) bad( "store", "barrier-src", "a barrier does not wait for the previous access" );
							if ( ( b.dstAccessMask & wanted.state.access ) != wanted.state.access || ( cmd->dst & wanted.state.pipelineStage ) != wanted.state.pipelineStage ) bad( "store", "barrier-dst", "a barrier does not make the next access wait" );
						}
					}
				}
				for ( auto & [cell, f] : from )
				{
					auto n = seen[cell];
					if ( n > 1 ) bad( "store", "barrier-twice", "a subresource has several barriers" );
					bool needed = force || ( wanted.layout != VK_IMAGE_LAYOUT_UNDEFINED && ( f.layout != wanted.layout || writes( f.state.access ) || writes( wanted.state.access )
						|| ( wanted.state.access & ~f.state.access ) || ( wanted.state.pipelineStage & ~f.state.pipelineStage ) ) );
					if ( needed && !n ) bad( "store", "barrier-missing", "a subresource which needs a barrier has none" );
					if ( wanted.layout == VK_IMAGE_LAYOUT_UNDEFINED && n ) bad( "store", "barrier-undefined", "a barrier leads to the undefined layout" );
					if ( n ) x.m.cells[cell] = wanted;
					c.stats.add( "barrier decisions checked" );
				}
			}

			void bufferBarrier( Ctx & x )
			{
				auto b = bufs[rng.below( uint32_t( bufs.size() ) )];
				auto wanted = makeAccess();
				bool force = rng.chance( 20 ), tell = rng.chance( 50 );
				AccessState from{ 0, VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT };
				auto told = tell ? makeAccess() : from;
				if ( auto it = x.m.buffers.find( b ); it != x.m.buffers.end() ) from = it->second;
				else from = told;
				if ( from.access && rng.chance( 25 ) ) wanted = from;
				crg::BufferSubresourceRange range{ 0, VK_WHOLE_SIZE };
				if ( rng.chance( 50 ) ) range = { 256, 512 };
				auto before = cmdCount();
				op( "buffer barrier" );
				if ( tell ) x.rc.memoryBarrier( cb, b, range, told.access, told.pipelineStage, wanted, force );
				else x.rc.memoryBarrier( cb, b, range, wanted, force );
				int n{};
				for ( auto cmd : newCmds( before ) )
					for ( auto & bb : cmd->bufB )
					{
						++n;
						if ( bb.buffer != b ) bad( "store", "barrier-buffer", "a barrier names another buffer" );
						if ( bb.offset > range.offset || ( bb.size != VK_WHOLE_SIZE && ( range.size == VK_WHOLE_SIZE || bb.offset + bb.size < range.offset + range.size ) ) ) bad( "store", "barrier-range", "a barrier does not cover the range asked for" );
						if ( ( bb.srcAccessMask & from.access ) != from.access || ( cmd->src & from.pipelineStage ) != from.pipelineStage ) bad( "store", "barrier-src", "a barrier does not wait for the previous access of a buffer" );
						if ( ( bb.dstAccessMask & wanted.access ) != wanted.access || ( cmd->dst & wanted.pipelineStage ) != wanted.pipelineStage ) bad( "store", "barrier-dst", "a barrier does not make the next access of a buffer wait" );
					}
				bool needed = force || writes( from.access ) || writes( wanted.access ) || ( wanted.access & ~from.access ) || ( wanted.pipelineStage & ~from.pipelineStage );
				if ( needed && n != 1 ) bad( "store", "barrier-missing", "a buffer which needs a barrier has " + std::to_string( n ) );
				if ( n ) x.m.buffers[b] = wanted;
				c.stats.add( "barrier decisions checked" );
			}

			// the actions offered for disabled passes
			void action( Ctx & x )
			{
				auto kind = rng.below( 4 );
				auto dst = makeView( -1, true );
				auto & di = imgs[size_t( dst.img )];
				auto ext = [&]( View const & v ){ auto & e = imgs[size_t( v.img )].ci.extent; return VkExtent3D{ std::max( 1u, e.width >> v.r.baseMipLevel ), std::max( 1u, e.height >> v.r.baseMipLevel ), std::max( 1u, e.depth >> v.r.baseMipLevel ) }; };
				View src{};
				bool isCopy = kind < 2;
				if ( isCopy )
				{
					// the same image, or one of the same format: layers of the same number
					std::vector< int > cands;
					for ( size_t k = 0; k < imgs.size(); ++k ) if ( !imgs[k].is3D && imgs[k].ci.format == di.ci.format ) cands.push_back( int( k ) );
					if ( di.is3D || cands.empty() ) return;
					src = makeView( cands[rng.below( uint32_t( cands.size() ) )], true );
					auto n = std::min( src.r.layerCount, dst.r.layerCount );
					if ( src.r.layerCount != n || dst.r.layerCount != n )
					{
						src.r.layerCount = dst.r.layerCount = n;
						src.type = dst.type = n > 1 ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
					}
					src.r.aspectMask = dst.r.aspectMask;
					src.id = handler->createViewId( crg::ImageViewData{ "v", imgs[size_t( src.img )].id, 0, src.type, di.ci.format, src.r } );
					dst.id = handler->createViewId( crg::ImageViewData{ "v", di.id, 0, dst.type, di.ci.format, dst.r } );
					if ( src.img == dst.img )
						for ( auto & a : cellsOf( src ) ) for ( auto & b : cellsOf( dst ) ) if ( a == b ) return;
				}
				auto final = rng.chance( 50 ) ? VK_IMAGE_LAYOUT_UNDEFINED : VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
				auto touch = [&]( View const & v )
				{
					for ( auto & cell : cellsOf( v ) )
					{
						auto it = x.m.cells.find( cell );
						View one{ v.img, {}, v.type, { v.r.aspectMask, std::get< 2 >( cell ), 1, std::get< 1 >( cell ), 1 } };
						pending.push_back( { one, it == x.m.cells.end() ? VK_IMAGE_LAYOUT_UNDEFINED : it->second.layout } );
					}
				};
				touch( dst );
				if ( isCopy ) touch( src );
				auto before = cmdCount();
				auto de = ext( dst ), se = isCopy ? ext( src ) : VkExtent3D{};
				VkExtent2D e{ std::min( de.width, se.width ), std::min( de.height, se.height ) };
				auto layers = dst.r.layerCount;
				auto slots = [&]( VkImageSubresourceLayers const & s, View const & v, char const * which, std::vector< uint32_t > & out )
				{
					if ( s.mipLevel != v.r.baseMipLevel || ( s.aspectMask & v.r.aspectMask ) != v.r.aspectMask ) bad( "action", "subresource", std::string( "an implicit copy is not for the " ) + which + " view" );
					for ( uint32_t l = 0; l < s.layerCount; ++l ) out.push_back( s.baseArrayLayer + l - v.r.baseArrayLayer );
				};
				std::vector< uint32_t > sl, dl;
				int others{};
				c.stats.add( "implicit actions checked" );
				if ( kind == 0 )
				{
					op( "copy action" );
					crg::RecordContext::copyImage( src.id, dst.id, e, final )( x.rc, cb, 0 );
					for ( auto cmd : newCmds( before ) )
						if ( cmd->op == Op::CopyImg )
							for ( auto & r : cmd->icopies )
							{
								slots( r.srcSubresource, src, "source", sl );
								slots( r.dstSubresource, dst, "destination", dl );
								if ( r.srcOffset.x || r.srcOffset.y || r.srcOffset.z || r.dstOffset.x || r.dstOffset.y || r.dstOffset.z || r.extent.width != e.width || r.extent.height != e.height || r.extent.depth != 1 )
									bad( "action", "region", "an implicit copy is not of the given extent" );
								if ( cmd->a != uint64_t( cache->createImage( imgs[size_t( src.img )].id ) ) || cmd->b != uint64_t( cache->createImage( di.id ) ) ) bad( "action", "image", "an implicit copy is not between the given images" );
							}
						else if ( cmd->op != Op::Barrier ) ++others;
				}
				else if ( kind == 1 )
				{
					op( "blit action" );
					auto sub = [&]( VkExtent3D const & x3, VkOffset2D & o, VkExtent2D & x2 )
					{
						o = { int32_t( rng.below( x3.width ) ), int32_t( rng.below( x3.height ) ) };
						x2 = { rng.range( 1, x3.width - uint32_t( o.x ) ), rng.range( 1, x3.height - uint32_t( o.y ) ) };
					};
					VkOffset2D so, dof; VkExtent2D sx, dx;
					sub( se, so, sx );
					sub( de, dof, dx );
					auto filter = isDepthFmt( di.ci.format ) || rng.chance( 50 ) ? VK_FILTER_NEAREST : VK_FILTER_LINEAR;
					crg::RecordContext::blitImage( src.id, dst.id, so, sx, dof, dx, filter, final )( x.rc, cb, 0 );
					for ( auto cmd : newCmds( before ) )
						if ( cmd->op == Op::Blit )
						{
							if ( cmd->filter != filter ) bad( "action", "filter", "an implicit blit does not use the given filter" );
							for ( auto & r : cmd->blits )
							{
								slots( r.srcSubresource, src, "source", sl );
								slots( r.dstSubresource, dst, "destination", dl );
								auto box = [&]( VkOffset3D const * o, VkOffset2D const & a, VkExtent2D const & b )
								{
									return o[0].x == a.x && o[0].y == a.y && o[0].z == 0 && o[1].x == a.x + int32_t( b.width ) && o[1].y == a.y + int32_t( b.height ) && o[1].z == 1;
								};
								if ( !box( r.srcOffsets, so, sx ) || !box( r.dstOffsets, dof, dx ) ) bad( "action", "region", "an implicit blit is not of the given regions" );
								if ( cmd->a != uint64_t( cache->createImage( imgs[size_t( src.img )].id ) ) || cmd->b != uint64_t( cache->createImage( di.id ) ) ) bad( "action", "image", "an implicit blit is not between the given images" );
							}
						}
						else if ( cmd->op != Op::Barrier ) ++others;
				}
				else
				{
					VkClearValue value{};
					bool colour = !isDepthFmt( di.ci.format ) && !isStencilFmt( di.ci.format );
					if ( colour ) for ( auto & f : value.color.float32 ) f = float( rng.below( 100 ) ) / 100.f;
					else value.depthStencil = { float( rng.below( 100 ) ) / 100.f, rng.below( 255 ) };
					op( "clear action" );
					if ( kind == 2 || !colour )
						crg::RecordContext::clearAttachment( dst.id, value, final )( x.rc, cb, 0 );
					else
					{
						// the attachment of a pass, with several indices
						auto & pass = graph->createPass( "p" + std::to_string( ++passes ), []( crg::FramePass const &, crg::GraphContext &, crg::RunnableGraph & ){ return crg::RunnablePassPtr{}; } );
						auto other = makeView( dst.img, true );
						auto idx = rng.below( 2 );
						crg::ImageViewIdArray views{ idx ? other.id : dst.id, idx ? dst.id : other.id };
						pass.addOutputColourView( views, value );
						if ( pass.images.size() != 1 ) { bad( "action", "attachment", "a pass has not the attachment it was given" ); return; }
						crg::RecordContext::clearAttachment( pass.images.front(), final )( x.rc, cb, idx );
					}
					for ( auto cmd : newCmds( before ) )
						if ( cmd->op == Op::ClearColor || cmd->op == Op::ClearDS )
						{
							if ( ( cmd->op == Op::ClearColor ) != colour ) bad( "action", "clear-kind", "an implicit clear is not of the kind of the image" );
							if ( cmd->a != uint64_t( cache->createImage( di.id ) ) ) bad( "action", "image", "an implicit clear is not for the given image" );
							if ( cmd->clears.empty() || memcmp( &cmd->clears[0], &value, colour ? sizeof( value.color ) : sizeof( value.depthStencil ) ) ) bad( "action", "clear-value", "an implicit clear is not with the given value" );
							for ( auto & r : cmd->ranges )
							{
								if ( r.baseMipLevel != dst.r.baseMipLevel || r.levelCount != dst.r.levelCount || ( r.aspectMask & dst.r.aspectMask ) != dst.r.aspectMask ) bad( "action", "subresource", "an implicit clear is not for the given view" );
								for ( uint32_t l = 0; l < r.layerCount; ++l ) { dl.push_back( r.baseArrayLayer + l - dst.r.baseArrayLayer ); sl.push_back( dl.back() ); }
							}
						}
						else if ( cmd->op != Op::Barrier ) ++others;
				}
				std::vector< uint32_t > want;
				for ( uint32_t l = 0; l < layers; ++l ) want.push_back( l );
				if ( sl != dl ) bad( "action", "layers-mixed", "an implicit action mixes the layers up" );
				std::sort( dl.begin(), dl.end() );
				if ( dl != want ) bad( "action", "layers", "an implicit action was executed for " + std::to_string( dl.size() ) + " layers instead of " + std::to_string( layers ) );
				if ( others ) bad( "action", "command", "an implicit action recorded another command" );
				// states
				auto dstState = crg::makeLayoutState( final == VK_IMAGE_LAYOUT_UNDEFINED ? VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL : final );
				for ( auto & cell : cellsOf( dst ) ) x.m.cells[cell] = dstState;
				if ( isCopy )
					for ( auto & cell : cellsOf( src ) )
					{
						auto ts = crg::makeLayoutState( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL );
						x.m.cells[cell] = ts;
					}
				checkAll( x, "after an implicit action, a subresource" );
			}

			std::vector< std::pair< View, VkImageLayout > > pending;
			int passes{};

			void flush( Ctx & )
			{
				if ( !cb ) return;
				ctx->vkEndCommandBuffer( cb );
				VkSubmitInfo si{};
				si.sType = VK_STRUCTURE_TYPE_SUBMIT_INFO;
				si.commandBufferCount = 1;
				si.pCommandBuffers = &cb;
				ctx->vkQueueSubmit( VkQueue( 0x21 ), 1, &si, {} );
				drv.completeAll();
				ctx->vkFreeCommandBuffers( ctx->device, pool, 1, &cb );
				cb = {};
			}
			void begin()
			{
				VkCommandBufferAllocateInfo ai{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_ALLOCATE_INFO, nullptr, pool, VK_COMMAND_BUFFER_LEVEL_PRIMARY, 1 };
				ctx->vkAllocateCommandBuffers( ctx->device, &ai, &cb );
				VkCommandBufferBeginInfo bi{ VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO, nullptr, VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT, nullptr };
				ctx->vkBeginCommandBuffer( cb, &bi );
			}

			// one operation which records commands, from a situation which is really the one tracked, executed at once
			template< typename F >
			void recorded( Ctx & x, F f )
			{
				pending.clear();
				begin();
				f();
				for ( auto & [v, l] : pending ) { reality( v, l ); }
				flush( x );
				// what is tracked is what is real, for what was just used
				for ( auto & [v, l] : pending )
				{
					auto o = drv.find( cache->createImage( imgs[size_t( v.img )].id ), T::Image );
					auto r = v.r;
					auto t = x.rc.getLayoutState( imgs[size_t( v.img )].id, v.type, v.r );
					if ( o ) drv.forRange( *o, r, [&]( Sub & s, uint32_t a, uint32_t, uint32_t )
					{
						if ( s.layout != drv.normLayout( t.layout, a, isDepthFmt( o->imgCI.format ) ) && t.layout != VK_IMAGE_LAYOUT_UNDEFINED ) bad( "store", "reality", std::string( "a subresource is tracked as " ) + layoutName( t.layout ) + " while it really is " + layoutName( s.layout ) );
						c.stats.add( "real layouts checked" );
					} );
				}
			}

			void step()
			{
				auto & x = ctxs[rng.below( uint32_t( ctxs.size() ) )];
				auto n = rng.below( 100 );
				if ( n < 22 )
				{
					auto v = makeView();
					auto s = makeState( imgs[size_t( v.img )] );
					op( "set i" + std::to_string( v.img ) );
					if ( rng.chance( 50 ) ) x.rc.setLayoutState( v.id, s ); else x.rc.setLayoutState( imgs[size_t( v.img )].id, v.type, v.r, s );
					for ( auto & cell : cellsOf( v ) ) x.m.cells[cell] = s;
				}
				else if ( n < 30 )
				{
					auto b = bufs[rng.below( uint32_t( bufs.size() ) )];
					auto s = makeAccess();
					op( "set b" );
					x.rc.setAccessState( b, { 0, VK_WHOLE_SIZE }, s );
					x.m.buffers[b] = s;
				}
				else if ( n < 45 )
				{
					auto v = makeView();
					op( "get i" + std::to_string( v.img ) );
					checkQuery( x.m.cells, v, rng.chance( 50 ) ? x.rc.getLayoutState( v.id ) : x.rc.getLayoutState( imgs[size_t( v.img )].id, v.type, v.r ), "a range" );
				}
				else if ( n < 60 ) recorded( x, [&]{ imageBarrier( x ); } );
				else if ( n < 66 ) recorded( x, [&]{ bufferBarrier( x ); } );
				else if ( n < 76 ) recorded( x, [&]{ action( x ); } );
				else if ( n < 80 )
				{
					auto & y = ctxs[rng.below( uint32_t( ctxs.size() ) )];
					if ( &x == &y ) return;
					op( "add" );
					x.rc.addStates( y.rc );
					x.m.cells.insert( y.m.cells.begin(), y.m.cells.end() );
					x.m.buffers.insert( y.m.buffers.begin(), y.m.buffers.end() );
					checkAll( x, "after adding states, a subresource" );
					checkAll( y, "after its states were added, a subresource" );
				}
				else if ( n < 85 )
				{
					auto & y = ctxs[rng.below( uint32_t( ctxs.size() ) )];
					if ( &x == &y ) return;
					op( "changes" );
					Ctx z{ x.rc.getChanges( y.rc ), {} };
					for ( auto & [k, s] : x.m.cells )
						if ( auto it = y.m.cells.find( k ); it == y.m.cells.end() || !same( it->second, s ) ) z.m.cells[k] = s;
					for ( auto & [k, s] : x.m.buffers )
						if ( auto it = y.m.buffers.find( k ); it == y.m.buffers.end() || !same( it->second, s ) ) z.m.buffers[k] = s;
					checkAll( z, "among the changes, a subresource" );
				}
				else if ( n < 88 )
				{
					auto k = rng.below( uint32_t( imgs.size() ) );
					op( "forget i" + std::to_string( k ) );
					x.rc.forgetState( imgs[k].id );
					for ( auto it = x.m.cells.begin(); it != x.m.cells.end(); ) if ( std::get< 0 >( it->first ) == int( k ) ) it = x.m.cells.erase( it ); else ++it;
				}
				else if ( n < 91 && ctxs.size() < 5 )
				{
					op( "copy" );
					ctxs.push_back( Ctx{ x } );
				}
				else if ( n < 93 ) { op( "check" ); checkAll( x, "a subresource" ); }
				else if ( n < 96 )
				{
					// what comes next
					crg::LayerLayoutStatesHandler h;
					Cells cells;
					for ( uint32_t k = 1 + rng.below( 3 ); k--; )
					{
						auto v = makeView();
						auto s = makeState( imgs[size_t( v.img )] );
						h.setLayoutState( v.id, s );
						for ( auto & cell : cellsOf( v ) ) cells[cell] = s;
					}
					auto st = makeAccess();
					auto curr = x.rc.getCurrPipelineState(), next = x.rc.getNextPipelineState();
					op( "next" );
					x.rc.setNextPipelineState( st, h.images );
					if ( !same( x.rc.getPrevPipelineState(), curr ) || !same( x.rc.getCurrPipelineState(), next ) || !same( x.rc.getNextPipelineState(), st ) ) bad( "store", "pipeline-state", "the previous, current and next pipeline states are not shifted" );
					for ( int k = 0; k < 3; ++k )
					{
						auto v = makeView();
						checkQuery( cells, v, rng.chance( 50 ) ? x.rc.getNextLayoutState( v.id ) : x.rc.getNextLayoutState( imgs[size_t( v.img )].id, v.type, v.r ), "the next state of a range" );
						checkQuery( cells, v, rng.chance( 50 ) ? h.getLayoutState( v.id ) : h.getLayoutState( imgs[size_t( v.img )].id, v.type, v.r ), "a range of a handler" );
					}
				}
				else
				{
					// inputs and outputs of a graph
					bool in = rng.chance( 50 );
					auto v = makeView();
					auto s = makeState( imgs[size_t( v.img )] );
					auto & i = imgs[size_t( v.img )];
					op( in ? "input" : "output" );
					if ( in ) { if ( rng.chance( 50 ) ) graph->addInput( v.id, s ); else graph->addInput( i.id, v.type, v.r, s ); }
					else { if ( rng.chance( 50 ) ) graph->addOutput( v.id, s ); else graph->addOutput( i.id, v.type, v.r, s ); }
					for ( auto & cell : cellsOf( v ) ) ( in ? inputs : outputs ).cells[cell] = s;
					for ( int k = 0; k < 3; ++k )
					{
						auto q = makeView();
						auto & qi = imgs[size_t( q.img )];
						checkQuery( inputs.cells, q, rng.chance( 50 ) ? graph->getInputLayoutState( q.id ) : graph->getInputLayoutState( qi.id, q.type, q.r ), "an input" );
						checkQuery( outputs.cells, q, rng.chance( 50 ) ? graph->getOutputLayoutState( q.id ) : graph->getOutputLayoutState( qi.id, q.type, q.r ), "an output" );
						checkQuery( {}, q, graph->getFinalLayoutState( q.id ), "the final state of a graph which was not run" );
					}
					crg::LayerLayoutStatesHandler all{ graph->getOutputLayoutStates() };
					for ( int k = 0; k < 2; ++k )
					{
						auto q = makeView();
						checkQuery( outputs.cells, q, all.getLayoutState( q.id ), "an output of the whole" );
					}
				}
			}

			void run()
			{
				sepDS = rng.chance( 50 );
				drv.separateDS = sepDS;
				drv.hcfg.highBits = rng.chance( 25 );
				ctx = std::make_unique< crg::GraphContext >( VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, drv.props, sepDS, &getProc );
				handler = std::make_unique< crg::ResourceHandler >();
				cache = std::make_unique< crg::ContextResourcesCache >( *handler, *ctx );
				graph = std::make_unique< crg::FrameGraph >( *handler, "g" );
				VkCommandPoolCreateInfo pi{ VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO, nullptr, VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT, 0 };
				ctx->vkCreateCommandPool( ctx->device, &pi, nullptr, &pool );
				auto ni = rng.range( 1, 4 );
				for ( uint32_t k = 0; k < ni; ++k )
				{
					static VkFormat const fmts[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT };
					crg::ImageData d{ "i" + std::to_string( k ), 0, VK_IMAGE_TYPE_2D, fmts[rng.below( 4 )], { 8u << rng.below( 3 ), 8u << rng.below( 3 ), 1 }
						, VkImageUsageFlags( 0xFF ), rng.range( 1, 4 ), rng.range( 1, 4 ) };
					bool is3D = rng.chance( 20 );
					if ( is3D ) { d.info.imageType = VK_IMAGE_TYPE_3D; d.info.format = VK_FORMAT_R8G8B8A8_UNORM; d.info.extent.depth = 4u << rng.below( 2 ); d.info.arrayLayers = 1; }
					imgs.push_back( { graph->createImage( d ), d.info, is3D } );
				}
				for ( uint32_t k = 0; k < 3; ++k ) bufs.push_back( drv.makeBuffer( 1024, "b" + std::to_string( k ) ) );
				ctxs.push_back( { crg::RecordContext{ *cache }, {} } );
				ctxs.push_back( { crg::RecordContext{ *cache }, {} } );
				ctxs.reserve( 8 );
				auto steps = 20 + rng.below( 60 );
				for ( uint32_t s = 0; s < steps; ++s ) step();
				for ( auto & x : ctxs ) checkAll( x, "in the end, a subresource" );
				ctx->vkDestroyCommandPool( ctx->device, pool, nullptr );
				ctxs.clear();
				graph.reset();
				cache.reset();
				handler.reset();
				ctx.reset();
				c.summary = log;
				c.take( drv );
			}
		};
	}

	void storeCase( Case & c )
	{
		StoreCase k{ c };
		k.run();
	}
}
