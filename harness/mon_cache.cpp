// Resource handler and resources caches against a reference model.
#include "cases.hpp"
#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <optional>

namespace mon
{
	namespace
	{
		// not the operators of the library, which are under test
		bool same( VkImageCreateInfo const & a, VkImageCreateInfo const & b )
		{
			return a.flags == b.flags && a.imageType == b.imageType && a.format == b.format && !memcmp( &a.extent, &b.extent, sizeof( a.extent ) ) && a.mipLevels == b.mipLevels
				&& a.arrayLayers == b.arrayLayers && a.samples == b.samples && a.tiling == b.tiling && a.usage == b.usage;
		}
		bool same( VkImageViewCreateInfo const & a, VkImageViewCreateInfo const & b )
		{
			return a.flags == b.flags && a.viewType == b.viewType && a.format == b.format && !memcmp( &a.components, &b.components, sizeof( a.components ) )
				&& !memcmp( &a.subresourceRange, &b.subresourceRange, sizeof( a.subresourceRange ) );
		}
		bool same( crg::SamplerDesc const & a, crg::SamplerDesc const & b )
		{
			return a.magFilter == b.magFilter && a.minFilter == b.minFilter && a.mipmapMode == b.mipmapMode && a.addressModeU == b.addressModeU && a.addressModeV == b.addressModeV
				&& a.addressModeW == b.addressModeW && a.mipLodBias == b.mipLodBias && a.minLod == b.minLod && a.maxLod == b.maxLod;
		}

		struct CacheCase
		{
			static constexpr int Nobody = -1;
			static constexpr int Direct = 100;   // created through the handler itself

			struct Img { crg::ImageId id; VkImageCreateInfo ci; std::string name; VkImage h{}; int owner{ Nobody }; int by{}; };
			struct View { crg::ImageViewId id; int img; VkImageViewCreateInfo ci; VkImageView h{}; int owner{ Nobody }; int by{}; };
			struct Smp { crg::SamplerDesc desc; VkSampler h; int owner; int by; };
			struct Quad { bool tex; crg::Texcoord cfg; crg::VertexBuffer const * p; int owner; int by; };

			Case & c;
			Rng & rng;
			Driver drv;
			std::vector< std::unique_ptr< crg::GraphContext > > ctxs;
			std::unique_ptr< crg::ResourceHandler > handler;
			bool grouped{};                                                       // one ResourcesCache, or one cache per context
			std::unique_ptr< crg::ResourcesCache > all;
			std::vector< std::unique_ptr< crg::ContextResourcesCache > > caches;
			std::vector< Img > imgs;
			std::vector< View > views;
			std::vector< Smp > smps;
			std::vector< Quad > quads;
			std::set< uint64_t > seen;   // every handle ever returned for a new object
			std::string log;

			explicit CacheCase( Case & pc ) : c{ pc }, rng{ pc.rng } {}

			void op( std::string const & s ) { log += s + "; "; c.note( std::hash< std::string >{}( s ) ); }
			void bad( char const * sig, std::string const & m ) { c.viol( "cache", sig, m + ": " + log.substr( log.size() > 400 ? log.size() - 400 : 0 ) ); }
			Obj * obj( uint64_t h, T t ) { auto o = drv.get( h, t ); return o && o->alive ? o : nullptr; }

			crg::ContextResourcesCache & cache( int k )
			{
				return grouped ? all->getContextCache( *ctxs[size_t( k )] ) : *caches[size_t( k )];
			}

			void newObject( uint64_t h, char const * what )
			{
				if ( !seen.insert( h ).second ) bad( "not-new", std::string( what ) + " which should be new has a known handle" );
			}

			void memory( uint64_t h, VkMemoryPropertyFlags flags, char const * what )
			{
				for ( auto & [mh, m] : drv.objs )
					if ( m->type == T::Memory && m->alive && m->boundTo == h )
					{
						auto type = m->pipe.cull;
						if ( !( drv.memTypeBits >> type & 1 ) || ( drv.memProps.memoryTypes[type].propertyFlags & flags ) != flags )
							bad( "memory-type", std::string( what ) + " is bound to a memory of type " + std::to_string( type ) );
						c.stats.add( "memory bindings checked" );
						return;
					}
				bad( "no-memory", std::string( what ) + " has no memory" );
			}

			void makeImageId()
			{
				static VkFormat const fmts[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT };
				crg::ImageData d{ "i" + std::to_string( imgs.size() ), 0, VK_IMAGE_TYPE_2D, fmts[rng.below( 4 )], { rng.range( 1, 16 ), rng.range( 1, 16 ), 1 }
					, VkImageUsageFlags( 1 + rng.below( 255 ) ), rng.range( 1, 5 ), rng.range( 1, 6 ), VK_SAMPLE_COUNT_1_BIT, rng.chance( 20 ) ? VK_IMAGE_TILING_LINEAR : VK_IMAGE_TILING_OPTIMAL };
				if ( rng.chance( 20 ) ) { d.info.imageType = VK_IMAGE_TYPE_3D; d.info.extent.depth = rng.range( 1, 8 ); d.info.arrayLayers = 1; }
				auto most = 1u;
				for ( auto e = std::max( { d.info.extent.width, d.info.extent.height, d.info.extent.depth } ); e >>= 1; ) ++most;
				d.info.mipLevels = std::min( d.info.mipLevels, most );
				if ( rng.chance( d.info.format == VK_FORMAT_R8G8B8A8_UNORM ? 60 : 20 ) ) d.info.flags = VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT;
				if ( !imgs.empty() && rng.chance( 25 ) ) d.info = imgs[rng.below( uint32_t( imgs.size() ) )].ci;
				auto id = handler->createImageId( d );
				op( "id i" + std::to_string( imgs.size() ) );
				if ( !id.data || id.data->name != d.name || !same( id.data->info, d.info ) ) bad( "image-data", "an image id does not have the data it was created with" );
				for ( auto & i : imgs ) if ( i.id == id || i.id.id == id.id || i.id.data == id.data ) bad( "image-id", "two images were given the same id" );
				for ( auto & i : imgs ) if ( i.id.data->name != i.name || !same( i.id.data->info, i.ci ) ) bad( "image-data", "the data of an image id changed" );
				imgs.push_back( { id, d.info, d.name } );
			}

			void makeViewId()
			{
				auto k = int( rng.below( uint32_t( imgs.size() ) ) );
				auto & i = imgs[size_t( k )];
				VkImageSubresourceRange r{};
				r.aspectMask = isDepthFmt( i.ci.format ) ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_COLOR_BIT;
				if ( isStencilFmt( i.ci.format ) && rng.chance( 60 ) ) r.aspectMask = rng.chance( 50 ) ? VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT;
				r.baseMipLevel = rng.below( i.ci.mipLevels );
				r.levelCount = rng.range( 1, i.ci.mipLevels - r.baseMipLevel );
				r.baseArrayLayer = rng.below( i.ci.arrayLayers );
				r.layerCount = rng.range( 1, i.ci.arrayLayers - r.baseArrayLayer );
				crg::ImageViewData d{ "v" + std::to_string( views.size() ), i.id, 0
					, i.ci.imageType == VK_IMAGE_TYPE_3D ? VK_IMAGE_VIEW_TYPE_3D : r.layerCount > 1 || rng.chance( 30 ) ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D
					, i.ci.format == VK_FORMAT_R8G8B8A8_UNORM && i.ci.flags && rng.chance( 45 ) ? VK_FORMAT_R8G8B8A8_SRGB : i.ci.format, r };
				if ( rng.chance( 10 ) ) d.info.components.r = VK_COMPONENT_SWIZZLE_ONE;
				if ( rng.chance( 10 ) ) d.info.components.a = VK_COMPONENT_SWIZZLE_ZERO;
				if ( !views.empty() && rng.chance( 25 ) )
				{
					auto & v = views[rng.below( uint32_t( views.size() ) )];
					d.info = v.ci;
					d.image = imgs[size_t( v.img )].id;
					k = v.img;
					auto & sr = d.info.subresourceRange;
					// a near miss, one time out of two
					switch ( rng.below( 8 ) )
					{
					case 0: if ( sr.levelCount > 1 ) --sr.levelCount; break;
					case 1: if ( sr.layerCount > 1 ) --sr.layerCount; break;
					case 2: if ( sr.baseMipLevel ) --sr.baseMipLevel; break;
					case 3: if ( sr.baseArrayLayer ) --sr.baseArrayLayer; break;
					default: break;
					}
				}
				auto id = handler->createViewId( d );
				op( "id v" + std::to_string( views.size() ) + " of i" + std::to_string( k ) );
				bool known{};
				for ( auto & v : views )
				{
					bool eq = v.img == k && same( v.ci, d.info );
					known = known || eq;
					if ( eq != ( v.id == id ) || eq != ( v.id.data == id.data ) )
						bad( eq ? "view-id-split" : "view-id-merged", eq ? "the same view was given two ids" : "different views were given the same id" );
				}
				if ( !id.data || !( id.data->image == imgs[size_t( k )].id ) || !same( id.data->info, d.info ) ) bad( "view-data", "a view id does not have the data it was created with" );
				c.stats.add( "view ids checked" );
				if ( !known ) views.push_back( { id, k, d.info } );
			}

			void checkImage( Img & i, VkImage h, int who, std::optional< bool > created )
			{
				if ( i.h )
				{
					if ( h != i.h ) bad( "image-changed", "an image which exists was given another handle" );
					if ( created && *created ) bad( "created", "an image which exists is said to have been created" );
				}
				else
				{
					newObject( ( uint64_t )h, "an image" );
					if ( created && !*created ) bad( "created", "a new image is said to have existed" );
					i.h = h;
					i.owner = who;
				}
				auto o = obj( ( uint64_t )h, T::Image );
				if ( !o ) { bad( "image-dead", "the image returned does not exist" ); return; }
				auto & a = o->imgCI;
				auto & b = i.ci;
				if ( !same( a, b ) || a.sharingMode != b.sharingMode || a.initialLayout != VK_IMAGE_LAYOUT_UNDEFINED ) bad( "image-info", "an image was not created from the data of its id" );
				memory( ( uint64_t )h, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, "an image" );
				c.stats.add( "images checked" );
			}

			void checkView( View & v, VkImageView h, int who, std::optional< bool > created, VkImage imgBefore )
			{
				if ( v.h )
				{
					if ( h != v.h ) bad( "view-changed", "a view which exists was given another handle" );
					if ( created && *created ) bad( "created", "a view which exists is said to have been created" );
				}
				else
				{
					newObject( ( uint64_t )h, "a view" );
					if ( created && !*created ) bad( "created", "a new view is said to have existed" );
					v.h = h;
					v.owner = who;
				}
				auto o = obj( ( uint64_t )h, T::ImageView );
				if ( !o ) { bad( "view-dead", "the view returned does not exist" ); return; }
				auto & i = imgs[size_t( v.img )];
				if ( !imgBefore && !i.h )
				{
					checkImage( i, o->viewCI.image, who, std::nullopt );
				}
				if ( o->viewCI.image != i.h ) bad( "view-image", "a view is not one of its image" );
				auto ci = o->viewCI;
				if ( !same( ci, v.ci ) ) bad( "view-info", "a view was not created from the data of its id" );
				c.stats.add( "views checked" );
			}

			bool hasViews( int img ) { for ( auto & v : views ) if ( v.img == img && v.h ) return true; return false; }

			crg::SamplerDesc makeDesc()
			{
				static float const lods[]{ -500.f, -1.f, 0.f, 0.5f, 1.f, 4.f, 500.f };
				auto w = [&]{ return VkSamplerAddressMode( rng.below( 3 ) ); };
				crg::SamplerDesc d{ VkFilter( rng.below( 2 ) ), VkFilter( rng.below( 2 ) ), VkSamplerMipmapMode( rng.below( 2 ) ), w(), w(), w()
					, lods[rng.below( 7 )], lods[rng.below( 7 )], lods[rng.below( 7 )] };
				if ( !smps.empty() && rng.chance( 60 ) )
				{
					d = smps[rng.below( uint32_t( smps.size() ) )].desc;
					// a near miss
					switch ( rng.below( 14 ) )
					{
					case 0: d.magFilter = VkFilter( 1 - d.magFilter ); break;
					case 1: d.minFilter = VkFilter( 1 - d.minFilter ); break;
					case 2: d.mipmapMode = VkSamplerMipmapMode( 1 - d.mipmapMode ); break;
					case 3: d.addressModeU = w(); break;
					case 4: d.addressModeV = w(); break;
					case 5: d.addressModeW = w(); break;
					case 6: std::swap( d.minLod, d.mipLodBias ); break;
					case 7: d.minLod = lods[rng.below( 7 )]; break;
					case 8: d.maxLod = lods[rng.below( 7 )]; break;
					case 9: std::swap( d.addressModeU, d.addressModeV ); break;
					case 10: std::swap( d.minFilter, d.magFilter ); break;
					default: break;
					}
				}
				return d;
			}

			void checkSampler( VkSampler h, crg::SamplerDesc const & d )
			{
				auto o = obj( ( uint64_t )h, T::Sampler );
				if ( !o ) { bad( "sampler-dead", "the sampler returned does not exist" ); return; }
				auto & s = o->samplerCI;
				if ( s.magFilter != d.magFilter || s.minFilter != d.minFilter || s.mipmapMode != d.mipmapMode || s.addressModeU != d.addressModeU || s.addressModeV != d.addressModeV
					|| s.addressModeW != d.addressModeW || s.mipLodBias != d.mipLodBias || s.minLod != d.minLod || s.maxLod != d.maxLod )
					bad( "sampler-info", "a sampler was not created from its description" );
				c.stats.add( "samplers checked" );
			}

			void checkQuad( crg::VertexBuffer const & b, bool tex, crg::Texcoord const & cfg )
			{
				auto h = b.buffer.buffer( 0 );
				auto o = obj( ( uint64_t )h, T::Buffer );
				if ( !o ) { bad( "quad-dead", "the vertex buffer returned does not exist" ); return; }
				memory( ( uint64_t )h, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, "a vertex buffer" );
				if ( !( o->bufCI.usage & VK_BUFFER_USAGE_VERTEX_BUFFER_BIT ) ) bad( "quad-usage", "a quad's buffer is no vertex buffer" );
				auto & st = b.inputState;
				if ( st.vertexAttributeDescriptionCount != ( tex ? 2u : 1u ) || st.vertexBindingDescriptionCount != 1 || st.pVertexAttributeDescriptions != b.vertexAttribs.data()
					|| st.pVertexBindingDescriptions != b.vertexBindings.data() ) { bad( "quad-state", "the vertex input state of a quad is wrong" ); return; }
				float v[3][4]{};
				for ( uint32_t i = 0; i < 3; ++i )
					for ( uint32_t k = 0; k < st.vertexAttributeDescriptionCount; ++k )
					{
						auto & a = st.pVertexAttributeDescriptions[k];
						auto off = size_t( i * st.pVertexBindingDescriptions[0].stride + a.offset );
						if ( off + 8 > o->bytes.size() || a.location > 1 || a.binding != 0 ) { bad( "quad-size", "a quad's vertices are outside of its buffer" ); return; }
						memcpy( &v[i][a.location * 2], o->bytes.data() + off, 8 );
					}
				double const x0 = v[0][0], y0 = v[0][1], x1 = v[1][0], y1 = v[1][1], x2 = v[2][0], y2 = v[2][1];
				double det = ( y1 - y2 ) * ( x0 - x2 ) + ( x2 - x1 ) * ( y0 - y2 );
				if ( std::abs( det ) < 1e-6 ) { bad( "quad-shape", "a quad is flat" ); return; }
				for ( int k = 0; k < 4; ++k )
				{
					double x = k & 1 ? 1.0 : -1.0, y = k & 2 ? 1.0 : -1.0;
					double a = ( ( y1 - y2 ) * ( x - x2 ) + ( x2 - x1 ) * ( y - y2 ) ) / det, e = ( ( y2 - y0 ) * ( x - x2 ) + ( x0 - x2 ) * ( y - y2 ) ) / det, g = 1.0 - a - e;
					if ( a < -1e-6 || e < -1e-6 || g < -1e-6 ) bad( "quad-shape", "a quad does not cover the screen" );
					if ( !tex ) continue;
					double u = a * v[0][2] + e * v[1][2] + g * v[2][2], w = a * v[0][3] + e * v[1][3] + g * v[2][3];
					if ( std::abs( u - ( ( ( k & 1 ) != 0 ) != cfg.invertU ? 1.0 : 0.0 ) ) > 1e-5 || std::abs( w - ( ( ( k & 2 ) != 0 ) != cfg.invertV ? 1.0 : 0.0 ) ) > 1e-5 )
						bad( "quad-texcoord", "the texture coordinates of a quad are wrong" );
				}
				c.stats.add( "quads checked" );
			}

			void mustBeDead( uint64_t h, T t, char const * what )
			{
				if ( h && obj( h, t ) ) bad( "not-destroyed", std::string( what ) + " which was destroyed still exists" );
				c.stats.add( "destructions checked" );
			}
			// after any operation, what should exist does
			void invariant()
			{
				for ( auto & i : imgs ) if ( i.h && !obj( ( uint64_t )i.h, T::Image ) ) { bad( "image-lost", "an image was destroyed which should exist" ); i.h = {}; }
				for ( auto & v : views ) if ( v.h && !obj( ( uint64_t )v.h, T::ImageView ) ) { bad( "view-lost", "a view was destroyed which should exist" ); v.h = {}; }
				for ( auto & s : smps ) if ( !obj( ( uint64_t )s.h, T::Sampler ) ) bad( "sampler-lost", "a sampler was destroyed which should exist" );
				for ( auto & q : quads ) if ( !obj( ( uint64_t )q.p->buffer.buffer( 0 ), T::Buffer ) ) bad( "quad-lost", "a vertex buffer was destroyed which should exist" );
				size_t n[4]{};
				for ( auto & [h, o] : drv.objs )
					if ( o->alive )
						switch ( o->type ) { case T::Image: ++n[0]; break; case T::ImageView: ++n[1]; break; case T::Sampler: ++n[2]; break; case T::Buffer: ++n[3]; break; default: break; }
				auto ni = size_t( std::count_if( imgs.begin(), imgs.end(), []( auto & i ){ return i.h; } ) );
				auto nv = size_t( std::count_if( views.begin(), views.end(), []( auto & v ){ return v.h; } ) );
				if ( n[0] != ni || n[1] != nv || n[2] != smps.size() || n[3] != quads.size() )
					bad( "count", "there are " + std::to_string( n[0] ) + "/" + std::to_string( n[1] ) + "/" + std::to_string( n[2] ) + "/" + std::to_string( n[3] ) + " images, views, samplers and buffers instead of "
						+ std::to_string( ni ) + "/" + std::to_string( nv ) + "/" + std::to_string( smps.size() ) + "/" + std::to_string( quads.size() ) );
			}

			void step()
			{
				auto k = int( rng.below( uint32_t( ctxs.size() ) ) );
				auto & ctx = *ctxs[size_t( k )];
				auto n = rng.below( 100 );
				auto ks = std::to_string( k );
				if ( n < 8 || imgs.empty() ) makeImageId();
				else if ( n < 20 || views.empty() ) makeViewId();
				else if ( n < 32 )
				{
					auto x = rng.below( uint32_t( imgs.size() ) );
					auto & i = imgs[x];
					if ( rng.chance( 25 ) )
					{
						op( "handler.image i" + std::to_string( x ) );
						auto r = handler->createImage( ctx, i.id );
						if ( !i.h ) i.by = k;
						checkImage( i, r.first, Direct, r.second );
					}
					else
					{
						op( "cache" + ks + ".image i" + std::to_string( x ) );
						checkImage( i, grouped && rng.chance( 50 ) ? all->createImage( ctx, i.id ) : cache( k ).createImage( i.id ), k, std::nullopt );
					}
				}
				else if ( n < 50 )
				{
					auto x = rng.below( uint32_t( views.size() ) );
					auto & v = views[x];
					auto before = imgs[size_t( v.img )].h;
					if ( before && rng.chance( 25 ) )
					{
						op( "handler.view v" + std::to_string( x ) );
						auto r = handler->createImageView( ctx, v.id );
						if ( !v.h ) v.by = k;
						checkView( v, r.first, Direct, r.second, before );
					}
					else
					{
						op( "cache" + ks + ".view v" + std::to_string( x ) );
						checkView( v, grouped && rng.chance( 50 ) ? all->createImageView( ctx, v.id ) : cache( k ).createImageView( v.id ), k, std::nullopt, before );
					}
				}
				else if ( n < 60 )
				{
					auto x = int( rng.below( uint32_t( imgs.size() ) ) );
					auto & i = imgs[size_t( x )];
					if ( hasViews( x ) ) return;
					auto h = i.h;
					if ( i.owner == Direct && rng.chance( 70 ) )
					{
						op( "handler.~image i" + std::to_string( x ) );
						handler->destroyImage( *ctxs[size_t( i.by )], i.id );
						i.h = {}; i.owner = Nobody;
						mustBeDead( ( uint64_t )h, T::Image, "an image" );
						return;
					}
					op( "cache" + ks + ".~image i" + std::to_string( x ) );
					bool any = grouped && rng.chance( 40 );
					bool expect = h && i.owner != Direct && ( any || i.owner == k );
					if ( !any && cache( k ).ownsImage( i.id ) != ( h && i.owner == k ) ) bad( "owns", "a cache is wrong about the image it owns" );
					bool r = any ? all->destroyImage( i.id ) : grouped && rng.chance( 50 ) ? all->destroyImage( ctx, i.id ) : cache( k ).destroyImage( i.id );
					if ( r != expect ) bad( "destroy-result", "destroying an image reported the contrary of what happened" );
					if ( expect ) { i.h = {}; i.owner = Nobody; mustBeDead( ( uint64_t )h, T::Image, "an image" ); }
				}
				else if ( n < 72 )
				{
					auto x = int( rng.below( uint32_t( views.size() ) ) );
					auto & v = views[size_t( x )];
					auto h = v.h;
					if ( v.owner == Direct && rng.chance( 70 ) )
					{
						op( "handler.~view v" + std::to_string( x ) );
						handler->destroyImageView( *ctxs[size_t( v.by )], v.id );
						v.h = {}; v.owner = Nobody;
						mustBeDead( ( uint64_t )h, T::ImageView, "a view" );
						return;
					}
					op( "cache" + ks + ".~view v" + std::to_string( x ) );
					bool any = grouped && rng.chance( 40 );
					bool expect = h && v.owner != Direct && ( any || v.owner == k );
					bool r = any ? all->destroyImageView( v.id ) : grouped && rng.chance( 50 ) ? all->destroyImageView( ctx, v.id ) : cache( k ).destroyImageView( v.id );
					if ( r != expect ) bad( "destroy-result", "destroying a view reported the contrary of what happened" );
					if ( expect ) { v.h = {}; v.owner = Nobody; mustBeDead( ( uint64_t )h, T::ImageView, "a view" ); }
				}
				else if ( n < 84 )
				{
					auto d = makeDesc();
					bool direct = rng.chance( 15 );
					op( direct ? "handler.sampler" : "cache" + ks + ".sampler" );
					auto h = direct ? handler->createSampler( ctx, "s", d ) : grouped && rng.chance( 50 ) ? all->createSampler( ctx, d ) : cache( k ).createSampler( d );
					checkSampler( h, d );
					Smp * known{};
					if ( !direct ) for ( auto & s : smps ) if ( s.owner == k && same( s.desc, d ) ) known = &s;
					if ( known )
					{
						if ( h != known->h ) bad( "sampler-split", "two samplers were created from the same description" );
					}
					else
					{
						newObject( ( uint64_t )h, "a sampler" );
						smps.push_back( { d, h, direct ? Direct : k, k } );
					}
				}
				else if ( n < 92 )
				{
					bool tex = rng.chance( 70 ), direct = rng.chance( 20 );
					crg::Texcoord cfg{ tex && rng.chance( 50 ), tex && rng.chance( 50 ) };
					op( direct ? "handler.quad" : "cache" + ks + ".quad" );
					auto p = direct ? handler->createQuadTriVertexBuffer( ctx, "q", tex, cfg ) : grouped && rng.chance( 50 ) ? &all->createQuadTriVertexBuffer( ctx, tex, cfg ) : &cache( k ).createQuadTriVertexBuffer( tex, cfg );
					checkQuad( *p, tex, cfg );
					Quad * known{};
					if ( !direct ) for ( auto & q : quads ) if ( q.owner == k && q.tex == tex && q.cfg.invertU == cfg.invertU && q.cfg.invertV == cfg.invertV ) known = &q;
					if ( known )
					{
						if ( p != known->p ) bad( "quad-split", "two vertex buffers were created for the same quad" );
					}
					else
					{
						newObject( ( uint64_t )p->buffer.buffer( 0 ), "a vertex buffer" );
						quads.push_back( { tex, cfg, p, direct ? Direct : k, k } );
					}
				}
				else if ( n < 96 ) dropDirect();
				else if ( !grouped ) dropCache( k );
			}

			void dropDirect()
			{
				for ( size_t i = 0; i < smps.size(); ++i )
					if ( smps[i].owner == Direct )
					{
						op( "handler.~sampler" );
						auto h = smps[i].h;
						handler->destroySampler( *ctxs[size_t( smps[i].by )], h );
						mustBeDead( ( uint64_t )h, T::Sampler, "a sampler" );
						smps.erase( smps.begin() + long( i ) );
						break;
					}
				for ( size_t i = 0; i < quads.size(); ++i )
					if ( quads[i].owner == Direct )
					{
						op( "handler.~quad" );
						auto h = uint64_t( quads[i].p->buffer.buffer( 0 ) );
						handler->destroyVertexBuffer( *ctxs[size_t( quads[i].by )], quads[i].p );
						mustBeDead( h, T::Buffer, "a vertex buffer" );
						quads.erase( quads.begin() + long( i ) );
						break;
					}
			}

			// everything a cache owns disappears with it, and nothing else
			void forgetCache( int k )
			{
				for ( auto & v : views ) if ( v.h && v.owner == k ) { mustBeDead( ( uint64_t )v.h, T::ImageView, "a view of a cache" ); v.h = {}; v.owner = Nobody; }
				for ( auto & i : imgs ) if ( i.h && i.owner == k ) { mustBeDead( ( uint64_t )i.h, T::Image, "an image of a cache" ); i.h = {}; i.owner = Nobody; }
				for ( size_t i = smps.size(); i--; ) if ( smps[i].owner == k ) { mustBeDead( ( uint64_t )smps[i].h, T::Sampler, "a sampler of a cache" ); smps.erase( smps.begin() + long( i ) ); }
			}
			std::vector< uint64_t > quadsOf( int k )
			{
				std::vector< uint64_t > r;
				for ( size_t i = quads.size(); i--; )
					if ( quads[i].owner == k )
					{
						r.push_back( uint64_t( quads[i].p->buffer.buffer( 0 ) ) );
						quads.erase( quads.begin() + long( i ) );
					}
				return r;
			}

			void dropForeignViews( int k )
			{
				// views others have on the images of this cache are destroyed first
				for ( size_t i = 0; i < views.size(); ++i )
				{
					auto & v = views[i];
					if ( v.h && v.owner != k && ( k == Nobody || imgs[size_t( v.img )].owner == k ) )
					{
						if ( v.owner == Direct ) handler->destroyImageView( *ctxs[size_t( v.by )], v.id );
						else if ( !cache( v.owner ).destroyImageView( v.id ) ) bad( "destroy-result", "a view was not destroyed by its cache" );
						v.h = {}; v.owner = Nobody;
					}
				}
			}

			void dropCache( int k )
			{
				dropForeignViews( k );
				op( "~cache" + std::to_string( k ) );
				auto q = quadsOf( k );
				caches[size_t( k )].reset();
				forgetCache( k );
				for ( auto h : q ) mustBeDead( h, T::Buffer, "a vertex buffer of a cache" );
				invariant();
				caches[size_t( k )] = std::make_unique< crg::ContextResourcesCache >( *handler, *ctxs[size_t( k )] );
			}

			void run()
			{
				// memory types: the first suitable ones vary
				drv.memProps.memoryTypeCount = rng.range( 2, 6 );
				auto n = drv.memProps.memoryTypeCount;
				for ( uint32_t i = 0; i < n; ++i )
				{
					static VkMemoryPropertyFlags const f[]{ 0, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT | VK_MEMORY_PROPERTY_HOST_COHERENT_BIT };
					drv.memProps.memoryTypes[i] = { f[rng.below( 4 )], 0 };
				}
				auto d = rng.below( n ), h = ( d + 1 + rng.below( n - 1 ) ) % n;
				drv.memProps.memoryTypes[d].propertyFlags |= VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT;
				drv.memProps.memoryTypes[h].propertyFlags |= VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT;
				drv.memTypeBits = 1u << d | 1u << h | rng.below( 1u << n );
				drv.hcfg.highBits = rng.chance( 25 );
				auto nc = rng.range( 1, 3 );
				for ( uint32_t i = 0; i < nc; ++i )
					ctxs.push_back( std::make_unique< crg::GraphContext >( VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, drv.props, false, &getProc ) );
				handler = std::make_unique< crg::ResourceHandler >();
				grouped = rng.chance( 40 );
				if ( grouped ) all = std::make_unique< crg::ResourcesCache >( *handler );
				else for ( uint32_t i = 0; i < nc; ++i ) caches.push_back( std::make_unique< crg::ContextResourcesCache >( *handler, *ctxs[i] ) );
				auto steps = 20 + rng.below( 100 );
				for ( uint32_t s = 0; s < steps; ++s )
				{
					step();
					invariant();
				}
				// end
				if ( grouped )
				{
					dropForeignViews( Nobody );
					std::vector< uint64_t > q;
					for ( int k = 0; k < int( nc ); ++k ) for ( auto h : quadsOf( k ) ) q.push_back( h );
					all.reset();
					for ( int k = 0; k < int( nc ); ++k ) forgetCache( k );
					for ( auto h : q ) mustBeDead( h, T::Buffer, "a vertex buffer of a cache" );
				}
				else for ( int k = 0; k < int( nc ); ++k ) dropCache( k );
				while ( std::any_of( smps.begin(), smps.end(), []( auto & s ){ return s.owner == Direct; } ) || std::any_of( quads.begin(), quads.end(), []( auto & s ){ return s.owner == Direct; } ) ) dropDirect();
				for ( auto & v : views ) if ( v.h ) { handler->destroyImageView( *ctxs[size_t( v.by )], v.id ); v.h = {}; }
				for ( auto & i : imgs ) if ( i.h ) { handler->destroyImage( *ctxs[size_t( i.by )], i.id ); i.h = {}; }
				invariant();
				caches.clear();
				handler.reset();
				for ( auto & x : ctxs ) x.reset();
				drv.checkLeaks( "the resources were destroyed" );
				c.nontrivial = imgs.size() + views.size() + seen.size() > 3;
				c.summary = log;
				c.take( drv );
			}
		};
	}

	void cacheCase( Case & c )
	{
		CacheCase k{ c };
		k.run();
	}
}
