// Several threads at once, on one resource handler: run with ThreadSanitizer.
#include "cases.hpp"
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <atomic>
#include <thread>

namespace mon
{
	namespace
	{
		// All the threads start together, without ordering anything afterwards.
		struct Gate
		{
			std::atomic< int > missing;
			explicit Gate( int n ) : missing{ n } {}
			void pass()
			{
				missing.fetch_sub( 1, std::memory_order_acq_rel );
				while ( missing.load( std::memory_order_acquire ) > 0 ) std::this_thread::yield();
			}
		};

		//------------------------------------------------------------ graphs of distinct threads

		void worlds( Case & c )
		{
			static char const * const names[]{ "kinds", "all", "graphs", "again", "merged", "toggle", "multi", "xfer", "rp", "reset", "draw" };
			auto n = c.rng.range( 2, 4 );
			struct Job
			{
				Profile prof;
				uint64_t seed{};
				Variant alone, together;
				Result result;
			};
			std::vector< Job > jobs( n );
			bool shared = c.rng.chance( 75 );
			bool same = c.rng.chance( 30 );
			crg::ResourceHandler handler;
			for ( auto & j : jobs )
			{
				j.prof = profileByName( names[c.rng.below( 11 )] );
				j.prof.pTimers = 0;
				j.prof.frames = 2;
				j.seed = c.rng.next() % 1000000007u;
				if ( same ) { j.prof = jobs[0].prof; j.seed = jobs[0].seed; }
				j.alone.log = j.together.log = true;
				j.alone.ownHandles = j.together.ownHandles = true;
				// one device would never give one handle to two threads
				j.together.handles.base = uint64_t( &j - jobs.data() + 1 ) << 40;
				if ( shared ) j.together.handler = &handler;
			}
			Gate gate{ int( n ) };
			std::vector< std::thread > threads;
			for ( auto & j : jobs )
				threads.emplace_back( [&j, &gate]
					{
						Stats dummy;
						gate.pass();
						j.result = runWorld( j.seed, j.prof, dummy, false, &j.together );
					} );
			for ( auto & t : threads ) t.join();
			for ( auto & j : jobs )
			{
				for ( auto & v : j.result.viols ) c.viol( v.cat, v.sig, v.msg );
				Stats dummy;
				runWorld( j.seed, j.prof, dummy, false, &j.alone );
				auto & a = j.alone.stream;
				auto & b = j.together.stream;
				size_t i = 0;
				while ( i < a.size() && i < b.size() && a[i] == b[i] ) ++i;
				if ( i < a.size() || i < b.size() )
					c.viol( "threads", "stream", "a program (profile " + j.prof.name + " seed " + std::to_string( j.seed ) + ") makes other device calls when others run: call " + std::to_string( i ) + " is [" + ( i < b.size() ? b[i] : "nothing" ) + "] instead of [" + ( i < a.size() ? a[i] : "nothing" ) + "]" );
				c.stats.add( "device calls compared", a.size() );
				c.note( j.result.shape );
				c.summary += ( c.summary.empty() ? "" : " || " ) + j.prof.name + " " + std::to_string( j.seed );
			}
			c.stats.add( shared ? "concurrent worlds on one handler" : "concurrent worlds on their own handlers", n );
		}

		//------------------------------------------------------------ resources shared by the threads

		// A device which orders nothing: each thread logs what it is asked.
		struct Event
		{
			int kind;             // 1 image, 2 view, 3 sampler, 4 buffer, 5 memory; negative when destroyed
			uint64_t handle;
			uint64_t of;
		};
		struct Log
		{
			std::vector< Event > events;
			Rng rng{ 0 };
			int thread{};
			uint64_t count{};
			char mapped[4096];
			void pause()
			{
				switch ( rng.below( 8 ) )
				{
				case 0: std::this_thread::yield(); break;
				case 1: for ( volatile int i = 0; i < 200; ++i ); break;
				default: break;
				}
			}
		};
		thread_local Log * t_log{};

		template< typename H >
		VkResult make( int kind, H * out, uint64_t of = 0 )
		{
			auto & l = *t_log;
			l.pause();
			auto h = ( uint64_t( l.thread + 1 ) << 40 ) | ( uint64_t( kind ) << 32 ) | ( ++l.count << 4 );
			*out = ( H )h;
			l.events.push_back( { kind, h, of } );
			l.pause();
			return VK_SUCCESS;
		}
		void drop( int kind, uint64_t h )
		{
			auto & l = *t_log;
			if ( h ) l.events.push_back( { -kind, h, 0 } );
			l.pause();
		}
		using A = VkAllocationCallbacks const *;
		VkResult cImage( VkDevice, VkImageCreateInfo const * ci, A, VkImage * o ) { return make( 1, o, ci->extent.width ); }
		void dImage( VkDevice, VkImage h, A ) { drop( 1, ( uint64_t )h ); }
		VkResult cView( VkDevice, VkImageViewCreateInfo const * ci, A, VkImageView * o ) { return make( 2, o, ( uint64_t )ci->image ); }
		void dView( VkDevice, VkImageView h, A ) { drop( 2, ( uint64_t )h ); }
		VkResult cSampler( VkDevice, VkSamplerCreateInfo const *, A, VkSampler * o ) { return make( 3, o ); }
		void dSampler( VkDevice, VkSampler h, A ) { drop( 3, ( uint64_t )h ); }
		VkResult cBuffer( VkDevice, VkBufferCreateInfo const *, A, VkBuffer * o ) { return make( 4, o ); }
		void dBuffer( VkDevice, VkBuffer h, A ) { drop( 4, ( uint64_t )h ); }
		VkResult cMemory( VkDevice, VkMemoryAllocateInfo const *, A, VkDeviceMemory * o ) { return make( 5, o ); }
		void dMemory( VkDevice, VkDeviceMemory h, A ) { drop( 5, ( uint64_t )h ); }
		VkResult bindB( VkDevice, VkBuffer, VkDeviceMemory, VkDeviceSize ) { t_log->pause(); return VK_SUCCESS; }
		VkResult bindI( VkDevice, VkImage, VkDeviceMemory, VkDeviceSize ) { t_log->pause(); return VK_SUCCESS; }
		void reqI( VkDevice, VkImage, VkMemoryRequirements * r ) { *r = { 256, 16, 1 }; }
		void reqB( VkDevice, VkBuffer, VkMemoryRequirements * r ) { *r = { 256, 16, 1 }; }
		VkResult map( VkDevice, VkDeviceMemory, VkDeviceSize, VkDeviceSize, VkMemoryMapFlags, void ** p ) { *p = t_log->mapped; return VK_SUCCESS; }
		void unmap( VkDevice, VkDeviceMemory ) {}
		VkResult flush( VkDevice, uint32_t, VkMappedMemoryRange const * ) { return VK_SUCCESS; }
		VkResult name( VkDevice, VkDebugUtilsObjectNameInfoEXT const * ) { return VK_SUCCESS; }

		PFN_vkVoidFunction VKAPI_PTR procs( VkDevice, char const * n )
		{
			static std::map< std::string, PFN_vkVoidFunction > const table
			{
#define E( n, f ) { "vk" #n, reinterpret_cast< PFN_vkVoidFunction >( &f ) }
				E( CreateImage, cImage ), E( DestroyImage, dImage ), E( CreateImageView, cView ), E( DestroyImageView, dView ), E( CreateSampler, cSampler ),
				E( DestroySampler, dSampler ), E( CreateBuffer, cBuffer ), E( DestroyBuffer, dBuffer ), E( AllocateMemory, cMemory ), E( FreeMemory, dMemory ),
				E( BindBufferMemory, bindB ), E( BindImageMemory, bindI ), E( GetImageMemoryRequirements, reqI ), E( GetBufferMemoryRequirements, reqB ),
				E( MapMemory, map ), E( UnmapMemory, unmap ), E( FlushMappedMemoryRanges, flush ), E( SetDebugUtilsObjectNameEXT, name ),
#undef E
			};
			auto it = table.find( n );
			return it == table.end() ? nullptr : it->second;
		}

		void pool( Case & c )
		{
			auto n = int( c.rng.range( 2, 5 ) );
			VkPhysicalDeviceMemoryProperties mem{};
			mem.memoryTypeCount = 1;
			mem.memoryTypes[0].propertyFlags = 0xF;
			VkPhysicalDeviceProperties props{};
			crg::GraphContext context{ VkDevice( 0x11 ), VkPipelineCache{}, nullptr, mem, props, false, &procs };
			std::vector< std::unique_ptr< Log > > logs;
			for ( int i = 0; i < n; ++i )
			{
				logs.push_back( std::make_unique< Log >() );
				logs.back()->thread = i;
				logs.back()->rng = Rng{ c.rng.next() };
			}
			struct Got
			{
				std::vector< crg::ImageId > ids;
				std::vector< crg::ImageViewId > views;
				std::map< uint32_t, VkImage > images;
				std::map< uint32_t, VkImageView > imageViews;
				uint64_t ops{};
			};
			std::vector< Got > got( static_cast< size_t >( n ) );
			crg::ResourceHandler handler;
			{
				auto imageData = []( uint32_t i ){ return crg::ImageData{ "img" + std::to_string( i ), 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8u + i, 8u, 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, 4u, 1u }; };
				auto viewData = []( crg::ImageId id, uint32_t m ){ return crg::ImageViewData{ "view" + std::to_string( id.id ) + "." + std::to_string( m ), id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, m, 1u, 0u, 1u } }; };
				std::vector< crg::ImageId > common;
				auto nc = c.rng.range( 1, 5 );
				for ( uint32_t i = 0; i < nc; ++i ) common.push_back( handler.createImageId( imageData( i ) ) );
				std::vector< std::unique_ptr< crg::ContextResourcesCache > > caches;
				for ( int i = 0; i < n; ++i ) caches.push_back( std::make_unique< crg::ContextResourcesCache >( handler, context ) );
				auto ops = 10 + c.rng.below( 60 );
				Gate gate{ n }, atEnd{ n };
				std::vector< std::thread > threads;
				for ( int t = 0; t < n; ++t )
					threads.emplace_back( [&, t]
						{
							t_log = logs[size_t( t )].get();
							Rng rng{ t_log->rng.next() };
							auto & cache = *caches[size_t( t )];
							auto & g = got[size_t( t )];
							gate.pass();
							for ( uint32_t o = 0; o < ops; ++o )
							{
								++g.ops;
								switch ( rng.below( 8 ) )
								{
								case 0: g.ids.push_back( handler.createImageId( imageData( 100u + uint32_t( t ) ) ) ); break;
								case 1: case 2:
									{
										auto v = handler.createViewId( viewData( rng.pick( common ), rng.below( 4 ) ) );
										g.views.push_back( v );
									}
									break;
								case 3:
									{
										auto & id = rng.pick( common );
										g.images[id.id] = cache.createImage( id );
									}
									break;
								case 4: case 5:
									{
										auto v = handler.createViewId( viewData( rng.pick( common ), rng.below( 4 ) ) );
										g.views.push_back( v );
										auto view = cache.createImageView( v );
										auto & known = g.imageViews[v.id];
										if ( known && known != view ) known = VkImageView( 1 );
										else known = view;
										g.images[v.data->image.id] = cache.createImage( v.data->image );
									}
									break;
								case 6:
									{
										crg::SamplerDesc s{};
										s.minLod = float( rng.below( 3 ) );
										cache.createSampler( s );
									}
									break;
								default: cache.createQuadTriVertexBuffer( rng.chance( 50 ), crg::Texcoord{ rng.chance( 50 ), rng.chance( 50 ) } ); break;
								}
								if ( rng.chance( 20 ) && g.ids.size() )
								{
									auto id = g.ids.back();
									cache.createImage( id );
									if ( rng.chance( 50 ) ) cache.destroyImage( id );
								}
							}
							// the views go before the images they are made of, which may be another thread's
							atEnd.pass();
							for ( auto & v : g.views ) cache.destroyImageView( v );
						} );
				for ( auto & t : threads ) t.join();
				threads.clear();
				// then the rest, concurrently too
				Gate last{ n };
				for ( int t = 0; t < n; ++t )
					threads.emplace_back( [&, t]
						{
							t_log = logs[size_t( t )].get();
							last.pass();
							caches[size_t( t )].reset();
						} );
				for ( auto & t : threads ) t.join();
			}
			// what happened
			std::map< uint32_t, VkImage > images;
			std::map< uint32_t, VkImageView > views;
			std::map< uint32_t, crg::ImageViewData const * > viewDatas;
			std::map< std::string, uint32_t > viewIds;
			std::set< uint32_t > ids;
			for ( auto & g : got )
			{
				c.stats.add( "operations", g.ops );
				for ( auto & id : g.ids )
					if ( !ids.insert( id.id ).second ) c.viol( "threads", "image-id", "two images have the same identifier" );
				for ( auto & v : g.views )
				{
					auto [it, ins] = viewIds.try_emplace( v.data->name, v.id );
					if ( it->second != v.id ) c.viol( "threads", "view-id", "one view has several identifiers: " + v.data->name );
					auto [jt, jns] = viewDatas.try_emplace( v.id, v.data );
					if ( jt->second != v.data ) c.viol( "threads", "view-data", "two views have the same identifier" );
				}
				for ( auto & [id, h] : g.images )
				{
					auto [it, ins] = images.try_emplace( id, h );
					if ( it->second != h || !h ) c.viol( "threads", "image-handle", "threads have got different images for one identifier" );
				}
				for ( auto & [id, h] : g.imageViews )
				{
					auto [it, ins] = views.try_emplace( id, h );
					if ( it->second != h || !h ) c.viol( "threads", "view-handle", "threads have got different views for one identifier" );
				}
			}
			std::map< uint64_t, int > alive;
			std::map< uint64_t, int > perImage;
			for ( auto & l : logs )
			{
				c.stats.add( "device calls logged", l->events.size() );
				for ( auto & e : l->events )
				{
					if ( e.kind > 0 ) ++alive[e.handle];
					else --alive[e.handle];
					if ( e.kind == 1 && e.of < 100 ) ++perImage[e.of];
					c.note( mix( uint64_t( e.kind + 10 ), e.handle ) );
				}
			}
			for ( auto & [h, k] : alive )
				if ( k ) c.viol( "threads", k > 0 ? "leak" : "double-destroy", std::string( "an object of kind " ) + std::to_string( h >> 32 & 0xFF ) + " was " + ( k > 0 ? "never destroyed" : "destroyed twice" ) );
			for ( auto & [i, k] : perImage )
				if ( k != 1 ) c.viol( "threads", "created-twice", "an image was created " + std::to_string( k ) + " times" );
			c.stats.add( "concurrent resource pools" );
			c.summary = std::to_string( n ) + " threads on one handler and context";
		}
	}

	void cacheCase( Case & c );
	void storeCase( Case & c );
	void nodesCase( Case & c );
	void tablesCase( Case & c );
	void signalCase( Case & c );

	namespace
	{
		//------------------------------------------------------------ declarations, transitions, exports, caches of distinct threads

		void others( Case & c )
		{
			static CaseFn const fns[]{ nodesCase, nodesCase, nodesCase, storeCase, tablesCase, cacheCase, signalCase };
			auto n = c.rng.range( 2, 4 );
			std::vector< Stats > stats( n );
			std::vector< std::unique_ptr< Case > > cases;
			std::vector< CaseFn > todo;
			auto seed = c.rng.next() % 1000000007u;
			bool same = c.rng.chance( 30 );
			auto fn = fns[c.rng.below( 7 )];
			for ( uint32_t i = 0; i < n; ++i )
			{
				cases.push_back( std::make_unique< Case >( same ? seed : c.rng.next() % 1000000007u, stats[i], false ) );
				todo.push_back( same ? fn : fns[c.rng.below( 7 )] );
			}
			Gate gate{ int( n ) };
			std::vector< std::thread > threads;
			for ( uint32_t i = 0; i < n; ++i )
				threads.emplace_back( [&, i]
					{
						gate.pass();
						todo[i]( *cases[i] );
					} );
			for ( auto & t : threads ) t.join();
			for ( uint32_t i = 0; i < n; ++i )
			{
				for ( auto & v : cases[i]->viols ) c.viol( v.cat, v.sig, v.msg );
				Stats dummy;
				Case alone{ cases[i]->seed, dummy, false };
				todo[i]( alone );
				if ( alone.shape != cases[i]->shape ) c.viol( "threads", "result", "a program observes something else when others run: " + alone.summary );
				c.note( alone.shape );
			}
			c.stats.add( "concurrent declarations, exports and caches", n );
			c.summary = std::to_string( n ) + " threads, each one with its own graphs and caches";
		}
	}

	void threadsCase( Case & c )
	{
		if ( c.rng.chance( 25 ) ) others( c );
		else if ( c.rng.chance( 50 ) ) worlds( c );
		else pool( c );
	}
}
