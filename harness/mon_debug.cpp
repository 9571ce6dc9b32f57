// Debug names, debug labels, the log, and the leak reports of the contexts and handlers, against a reference model.
#include "cases.hpp"
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/Log.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <algorithm>
#include <memory>

namespace mon
{
	namespace
	{
		thread_local int t_debugProcs{};   // 1 utils, 2 markers

		PFN_vkVoidFunction VKAPI_PTR someProcs( VkDevice d, char const * n )
		{
			std::string s{ n };
			if ( !( t_debugProcs & 1 ) && s.find( "DebugUtils" ) != std::string::npos ) return nullptr;
			if ( !( t_debugProcs & 2 ) && s.find( "DebugMarker" ) != std::string::npos ) return nullptr;
			return getProc( d, n );
		}

		size_t occurrences( std::string const & s, std::string const & what )
		{
			size_t n = 0;
			for ( auto p = s.find( what ); p != std::string::npos; p = s.find( what, p + 1 ) ) ++n;
			return n;
		}

		struct DebugCase
		{
			struct Entry { T t; uint64_t h; std::string type, name, stack; };
			Case & c;
			Rng & rng;
			Driver drv;
			std::string log;

			explicit DebugCase( Case & pc ) : c{ pc }, rng{ pc.rng } {}
			void op( std::string const & s ) { log += s + "; "; c.note( std::hash< std::string >{}( s ) ); }
			void bad( char const * sig, std::string const & m ) { c.viol( "debug", sig, m + ": " + log.substr( log.size() > 300 ? log.size() - 300 : 0 ) ); }

			std::string name()
			{
				std::string r = rng.chance( 10 ) ? std::string{} : "n" + std::to_string( rng.below( 1000000 ) );
				if ( rng.chance( 15 ) ) r += std::string( rng.below( 60 ), 'x' );
				if ( rng.chance( 10 ) ) r += " %s%n%d";
				return r;
			}

			template< typename H >
			void reg( crg::GraphContext & ctx, std::string const & n, uint64_t h, bool only )
			{
				if ( only ) crgRegisterObjectName( ctx, n, ( H )h );
				else crgRegisterObject( ctx, n, ( H )h );
			}
			template< typename H >
			void unreg( crg::GraphContext & ctx, uint64_t h ) { crgUnregisterObject( ctx, ( H )h ); }

#define TYPES( X ) X( Buffer, VkBuffer ) X( Image, VkImage ) X( ImageView, VkImageView ) X( BufferView, VkBufferView ) X( Memory, VkDeviceMemory ) X( Sampler, VkSampler ) \
	X( Pipeline, VkPipeline ) X( PipelineLayout, VkPipelineLayout ) X( DSLayout, VkDescriptorSetLayout ) X( DPool, VkDescriptorPool ) X( DSet, VkDescriptorSet ) \
	X( RenderPass, VkRenderPass ) X( Framebuffer, VkFramebuffer ) X( CmdPool, VkCommandPool ) X( CmdBuf, VkCommandBuffer ) X( Semaphore, VkSemaphore ) X( Fence, VkFence ) \
	X( Event, VkEvent ) X( QueryPool, VkQueryPool ) X( ShaderModule, VkShaderModule )

			void doReg( crg::GraphContext & ctx, T t, std::string const & n, uint64_t h, bool only )
			{
				switch ( t )
				{
#define X( a, b ) case T::a: reg< b >( ctx, n, h, only ); break;
				TYPES( X )
#undef X
				default: break;
				}
			}
			void doUnreg( crg::GraphContext & ctx, T t, uint64_t h )
			{
				switch ( t )
				{
#define X( a, b ) case T::a: unreg< b >( ctx, h ); break;
				TYPES( X )
#undef X
				default: break;
				}
			}
			static std::string vkName( T t )
			{
				switch ( t )
				{
#define X( a, b ) case T::a: return #b;
				TYPES( X )
#undef X
				default: return {};
				}
			}

			// The list of allocated objects, and what is reported about it.
			void registry()
			{
				t_debugProcs = int( rng.below( 4 ) );
				auto ctx = std::make_unique< crg::GraphContext >( VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, drv.props, false, &someProcs );
				std::vector< Entry > live, all;
				std::string stack;
				bool stacks = rng.chance( 50 );
				if ( stacks ) ctx->setCallstackCallback( [&stack]{ return stack; } );
				auto n = rng.range( 3, 30 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					auto k = rng.below( 10 );
					drv.lastName.clear();
					if ( k < 5 )
					{
						T t = T( rng.range( 1, uint32_t( T::Count ) - 1 ) );
						Entry e{ t, 0, vkName( t ), name(), stacks ? "stack" + std::to_string( i ) + "\n" : std::string{} };
						auto & o = drv.create( t );
						o.external = true;
						e.h = o.h;
						stack = e.stack;
						bool only = rng.chance( 20 );
						op( ( only ? "name " : "register " ) + e.type + " " + e.name );
						doReg( *ctx, t, e.name, e.h, only );
						if ( drv.lastName.size() != size_t( ( t_debugProcs & 1 ) + ( t_debugProcs >> 1 ) ) ) bad( "name-count", "a registered object is not named once by each means available" );
						for ( auto & l : drv.lastName )
							if ( l.first != e.h || l.second != e.name ) bad( "name-given", "an object is given another name than its own" );
						c.stats.add( "names checked" );
						if ( !only ) live.push_back( e );
						all.push_back( e );
						if ( !only && drv.registered.count( e.h ) == 0 ) bad( "not-logged", "the creation of an object is not logged" );
					}
					else if ( k < 8 && !live.empty() )
					{
						auto j = rng.below( uint32_t( live.size() ) );
						auto e = live[j];
						op( "unregister " + e.type + " " + e.name );
						doUnreg( *ctx, e.t, e.h );
						if ( drv.registered.count( e.h ) ) bad( "not-logged", "the destruction of an object is not logged" );
						live.erase( live.begin() + j );
						drv.destroyExternal( e.h );
					}
					else if ( k == 8 )
					{
						op( "unregister nothing" );
						unreg< VkBuffer >( *ctx, rng.chance( 50 ) ? 0 : 0x7777777 );
					}
					else
					{
						// the labels go to the device as they are
						auto & cb = drv.create( T::CmdBuf );
						cb.external = true;
						cb.cbState = 1;
						crg::DebugBlockInfo info{ name(), { float( rng.below( 100 ) ) / 100.0f, 0.5f, 0.25f, 1.0f } };
						op( "label " + info.markerName );
						ctx->vkCmdBeginDebugBlock( VkCommandBuffer( cb.h ), info );
						ctx->vkCmdEndDebugBlock( VkCommandBuffer( cb.h ) );
						size_t wanted = size_t( ( t_debugProcs & 1 ) + ( t_debugProcs >> 1 ) );
						size_t b = 0, e = 0;
						for ( auto & x : cb.cmds )
						{
							b += x.op == Op::LabelBegin && x.text == info.markerName && x.clears.size() == 1 && !memcmp( x.clears[0].color.float32, info.colour.data(), 16 );
							e += x.op == Op::LabelEnd;
						}
						if ( b != wanted || e != wanted || cb.cmds.size() != 2 * wanted ) bad( "labels", "a debug block is not one label of its name and colour" );
						auto colour = ctx->getNextRainbowColour();
						for ( auto v : colour ) if ( !( v >= 0.0f && v <= 1.0f ) ) bad( "colour", "a colour is outside of [0, 1]" );
						c.stats.add( "labels checked" );
					}
				}
				auto said = captureStderr( [&ctx]{ ctx.reset(); } );
				c.stats.add( "context leak reports checked" );
				c.stats.add( "leaks reported", live.size() );
				auto lines = occurrences( said, "Leaked [" );
				if ( lines != live.size() ) bad( "report-count", std::to_string( live.size() ) + " objects remain, " + std::to_string( lines ) + " are reported as leaked" );
				std::map< std::string, size_t > wanted;
				for ( auto & e : live ) ++wanted["Leaked [" + e.type.substr( 0, 20 ) + "](" + e.name.substr( 0, 80 )];
				for ( auto & [w, count] : wanted )
					if ( occurrences( said, w ) < count ) bad( "report", "\"" + w + "\" is not in the report of the context" );
				if ( stacks )
					for ( auto & e : live )
						if ( occurrences( said, e.stack ) != 1 ) bad( "report-stack", "the allocation stack of a leaked object is not reported once" );
				for ( auto & e : all ) drv.destroyExternal( e.h );
				drv.registered.clear();
			}

			void handler()
			{
				t_debugProcs = 3;
				auto ctx = std::make_unique< crg::GraphContext >( VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, drv.props, false, &someProcs );
				auto h = std::make_unique< crg::ResourceHandler >();
				struct Img { crg::ImageId id; std::string name; std::vector< std::pair< crg::ImageViewId, std::string > > views; };
				std::vector< Img > imgs;
				std::vector< VkSampler > smps;
				std::vector< crg::VertexBuffer const * > quads;
				auto n = rng.range( 1, 4 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					Img im;
					im.name = "image " + std::to_string( i ) + name();
					crg::ImageData d{ im.name, 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, VkExtent3D{ 8, 8, 1 }, VK_IMAGE_USAGE_SAMPLED_BIT, 1, 2 };
					im.id = h->createImageId( d );
					op( "image" );
					auto vk = h->createImage( *ctx, im.id ).first;
					if ( drv.debugNames[( uint64_t )vk] != im.name ) bad( "image-name", "an image is named \"" + drv.debugNames[( uint64_t )vk] + "\" instead of \"" + im.name + "\"" );
					for ( uint32_t j = rng.below( 3 ); j; --j )
					{
						auto vn = "view " + std::to_string( i ) + " " + std::to_string( j ) + name();
						crg::ImageViewData v{ vn, im.id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 0, 1, j - 1, 1 } };
						auto id = h->createViewId( v );
						auto vv = h->createImageView( *ctx, id ).first;
						if ( drv.debugNames[( uint64_t )vv] != vn ) bad( "view-name", "a view is named \"" + drv.debugNames[( uint64_t )vv] + "\" instead of \"" + vn + "\"" );
						im.views.emplace_back( id, vn );
						c.stats.add( "names checked" );
					}
					imgs.push_back( im );
				}
				for ( auto k = rng.below( 3 ); k; --k ) { op( "sampler" ); smps.push_back( h->createSampler( *ctx, "s", {} ) ); }
				for ( auto k = rng.below( 3 ); k; --k ) { op( "quad" ); quads.push_back( h->createQuadTriVertexBuffer( *ctx, "q", rng.chance( 50 ), {} ) ); }
				// some are destroyed
				std::map< std::string, size_t > wanted;
				size_t total = 0;
				auto remains = [&]( std::string const & type, std::string const & nm ){ ++wanted["Leaked [" + type + "](" + nm]; ++total; };
				uint32_t const keeps[]{ 0, 0, 30, 100 };
				uint32_t keep = keeps[rng.below( 4 )];
				for ( auto & im : imgs )
				{
					bool keepImg = rng.chance( keep );
					for ( auto & v : im.views )
						if ( keepImg && rng.chance( 60 ) ) remains( "VkImageView", v.second );
						else h->destroyImageView( *ctx, v.first );
					if ( keepImg ) remains( "VkImage", im.name );
					else h->destroyImage( *ctx, im.id );
				}
				size_t listed = 0;
				for ( auto s : smps ) if ( rng.chance( keep ) ) { remains( "VkSampler", "" ); ++listed; } else h->destroySampler( *ctx, s );
				for ( auto q : quads ) if ( rng.chance( keep ) ) { remains( "VkBuffer", "" ); remains( "VkDeviceMemory", "" ); listed += 2; } else h->destroyVertexBuffer( *ctx, q );
				op( "remain " + std::to_string( total ) );
				drv.errors.clear();
				h.reset();
				c.stats.add( "handler leak reports checked" );
				c.stats.add( "leaks reported", total );
				if ( drv.errors.size() != total ) bad( "handler-report-count", std::to_string( total ) + " objects remain, " + std::to_string( drv.errors.size() ) + " errors are logged by the handler" );
				for ( auto & [w, count] : wanted )
				{
					size_t seen = 0;
					for ( auto & e : drv.errors ) seen += e.rfind( w, 0 ) == 0;
					if ( seen < count ) bad( "handler-report", "\"" + w + "\" is not logged by the handler" );
				}
				auto said = captureStderr( [&ctx]{ ctx.reset(); } );
				auto lines = occurrences( said, "Leaked [" );
				if ( lines != listed ) bad( "report-count", std::to_string( listed ) + " listed objects remain, " + std::to_string( lines ) + " are reported as leaked" );
				drv.registered.clear();
			}

			// Each message reaches the callback of its level, once and unchanged.
			void levels()
			{
				using Fn = void ( * )( std::string const &, bool );
				static Fn const fn[]{ &crg::Logger::logTrace, &crg::Logger::logDebug, &crg::Logger::logInfo, &crg::Logger::logWarning, &crg::Logger::logError };
				for ( uint32_t i = rng.range( 1, 6 ); i; --i )
				{
					auto l = rng.below( 5 );
					auto m = "message " + name();
					drv.lastLogs.clear();
					bool line = rng.chance( 50 );
					fn[l]( m, line );
					if ( drv.lastLogs.size() != 1 || drv.lastLogs[0] != std::make_tuple( int( l ), m, line ) ) bad( "log-level", "a message does not reach the callback of its level once, as it is" );
					c.stats.add( "messages checked" );
				}
				for ( VkResult r : { VK_SUCCESS, VK_ERROR_DEVICE_LOST, VK_ERROR_OUT_OF_HOST_MEMORY, VK_TIMEOUT, VK_ERROR_FORMAT_NOT_SUPPORTED } )
				{
					drv.errors.clear();
					bool thrown = false;
					std::string what;
					try { crg::checkVkResult( r, "step " + log ); }
					catch ( crg::Exception const & e ) { thrown = true; what = e.what(); }
					if ( thrown != ( r != VK_SUCCESS ) || drv.errors.size() != size_t( thrown ) ) bad( "result", "result " + std::to_string( r ) + " is not reported as it should" );
					if ( thrown && ( drv.errors[0].find( "step " + log ) == std::string::npos ) ) bad( "result-message", "the failed step is not named by the logged error" );
				}
			}

			void run()
			{
				drv.watchLog = true;
				drv.hcfg.highBits = rng.chance( 20 );
				registry();
				handler();
				levels();
				c.take( drv );
				c.summary = log.substr( 0, 400 );
			}
		};
	}

	void debugCase( Case & c )
	{
		DebugCase d{ c };
		d.run();
	}
}
