#include "world.hpp"

#include <RenderGraph/Attachment.hpp>
#include <RenderGraph/Exception.hpp>
#include <RenderGraph/Log.hpp>

#include <algorithm>
#include <cstdio>

#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace mon
{
	static thread_local bool g_clockFrozen{};
	static thread_local uint64_t g_clockOffset{};
}

// The clock the library measures CPU times with: frozen, and moved by the callbacks of the passes.
extern "C" int clock_gettime( clockid_t id, timespec * ts ) noexcept
{
	if ( mon::g_clockFrozen && id == CLOCK_REALTIME )
	{
		uint64_t ns = 1700000000000000000ull + mon::g_clockOffset;
		ts->tv_sec = time_t( ns / 1000000000ull );
		ts->tv_nsec = long( ns % 1000000000ull );
		return 0;
	}
	return int( syscall( SYS_clock_gettime, id, ts ) );
}

namespace mon
{
	bool isRP( Use u ) { return u >= Use::CIn; }
	bool reads( Use u )
	{
		switch ( u )
		{
		case Use::StOut: case Use::StClr: case Use::TrOut: case Use::COut: case Use::DOut: case Use::DSOut: case Use::SOut: return false;
		default: return true;
		}
	}
	bool writes( Use u )
	{
		switch ( u )
		{
		case Use::Sampled: case Use::StIn: case Use::TrIn: case Use::Impl: case Use::CIn: case Use::DIn: case Use::DSIn: case Use::SIn: return false;
		default: return true;
		}
	}
	bool reads( BUse u )
	{
		switch ( u )
		{
		case BUse::StOut: case BUse::StClr: case BUse::TrOut: case BUse::StOutV: case BUse::StClrV: return false;
		default: return true;
		}
	}
	bool writes( BUse u )
	{
		switch ( u )
		{
		case BUse::Uniform: case BUse::StIn: case BUse::TrIn: case BUse::Impl: case BUse::UniformV: case BUse::StInV: return false;
		default: return true;
		}
	}
	char const * useName( Use u )
	{
		static char const * n[]{ "sampled", "storage-in", "storage-out", "storage-clearable", "storage-inout", "transfer-in", "transfer-out", "transfer-inout", "implicit"
			, "colour-in", "colour-inout", "colour-out", "depth-in", "depth-inout", "depth-out", "ds-in", "ds-inout", "ds-out", "stencil-in", "stencil-inout", "stencil-out" };
		return n[int( u )];
	}
	char const * buseName( BUse u )
	{
		static char const * n[]{ "uniform", "storage-in", "storage-out", "storage-clearable", "storage-inout", "transfer-in", "transfer-out", "transfer-inout", "implicit"
			, "uniform-view", "storage-in-view", "storage-out-view", "storage-clearable-view", "storage-inout-view" };
		return n[int( u )];
	}
	char const * kindName( PK k )
	{
		static char const * n[]{ "raw", "render-pass", "quad", "mesh", "compute", "image-copy", "image-blit", "buffer-copy", "buffer-to-image", "image-to-buffer", "mipmaps" };
		return n[int( k )];
	}

	VkImageLayout declaredLayout( Use u, bool sep, VkImageLayout wanted )
	{
		switch ( u )
		{
		case Use::Sampled: return VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL;
		case Use::StIn: case Use::StOut: case Use::StClr: case Use::StIO: return VK_IMAGE_LAYOUT_GENERAL;
		case Use::TrIn: return VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL;
		case Use::TrOut: case Use::TrIO: return VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
		case Use::Impl: return wanted;
		case Use::CIn: case Use::CIO: case Use::COut: return VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
		case Use::DIn: return sep ? VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case Use::DIO: case Use::DOut: return sep ? VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case Use::DSIn: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		case Use::DSIO: case Use::DSOut: return VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		case Use::SIn: return sep ? VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL;
		default: return sep ? VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL : VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL;
		}
	}

	static std::vector< Profile > makeProfiles()
	{
		std::vector< Profile > r;
		auto add = [&]( std::string n ) -> Profile & { Profile p = r.empty() ? Profile{} : r.front(); p.name = n; r.push_back( p ); return r.back(); };
		add( "core" );
		{ auto & p = add( "rp" ); p.pSamples = 15; p.pRaw = 35; p.pRP = 45; p.pQuad = 10; p.pMesh = 5; p.pCompute = 5; p.pDS = 30; p.frames = 3; }
		{ auto & p = add( "kinds" ); p.pSamples = 8; p.pMerged = 12; p.pRaw = 15; p.pRP = 10; p.pQuad = 25; p.pMesh = 20; p.pCompute = 20; p.pXfer = 10; p.pDS = 20; p.frames = 3; }
		{ auto & p = add( "xfer" ); p.pMulti = 25; p.pRaw = 20; p.pRP = 10; p.pXfer = 60; p.pMips = 10; p.p3D = 5; p.pDS = 15; p.minBuf = 2; p.maxBuf = 4; p.minImg = 3; p.maxImg = 7; p.pExternal = 45; p.maxPass = 10; }
		{ auto & p = add( "buffers" ); p.pRaw = 60; p.pCompute = 25; p.pXfer = 15; p.minBuf = 2; p.maxBuf = 4; p.maxImg = 3; p.sync = true; }
		{ auto & p = add( "sync" ); p.pMerged = 12; p.pRaw = 70; p.pCompute = 15; p.pXfer = 15; p.sync = true; p.maxPass = 10; }
		{ auto & p = add( "syncall" ); p.pRaw = 25; p.pRP = 20; p.pQuad = 10; p.pMesh = 5; p.pCompute = 15; p.pXfer = 17; p.pMips = 8; p.pMerged = 10; p.pToggle = 15; p.pImplicit = 25; p.pMulti = 20; p.pDS = 15; p.sync = true; p.maxPass = 12; p.frames = 3; }
		{ auto & p = add( "rpsync" ); p.pRaw = 35; p.pRP = 35; p.pQuad = 10; p.pMesh = 5; p.pCompute = 10; p.pXfer = 5; p.pDS = 30; p.sync = true; p.frames = 3; }
		{ auto & p = add( "toggle" ); p.pRaw = 45; p.pRP = 25; p.pQuad = 8; p.pCompute = 12; p.pXfer = 10; p.pToggle = 50; p.pImplicit = 50; p.frames = 5; }
		{ auto & p = add( "rptoggle" ); p.pRaw = 50; p.pRP = 42; p.pCompute = 8; p.pToggle = 60; p.pDS = 25; p.minImg = 1; p.maxImg = 3; p.maxBuf = 1; p.minPass = 4; p.maxPass = 8; p.frames = 8; p.pHistory = 20; }
		{ auto & p = add( "multi" ); p.pSamples = 8; p.pRaw = 35; p.pRP = 20; p.pQuad = 15; p.pMesh = 5; p.pCompute = 15; p.pXfer = 10; p.pMulti = 50; p.frames = 5; p.minImg = 3; p.maxImg = 6; }
		{ auto & p = add( "graphs" ); p.pMerged = 8; p.pRaw = 50; p.pRP = 30; p.pXfer = 10; p.pCompute = 10; p.maxGraphs = 3; p.frames = 4; p.maxPass = 10; p.minPass = 4; }
		{ auto & p = add( "history" ); p.pSamples = 8; p.pMerged = 12; p.pRaw = 50; p.pRP = 40; p.pXfer = 10; p.pHistory = 70; p.frames = 5; p.pDS = 20; p.pExternal = 20; }
		{ auto & p = add( "merged" ); p.pRaw = 60; p.pRP = 30; p.pCompute = 10; p.pMerged = 60; p.frames = 3; }
		{ auto & p = add( "big" ); p.pRaw = 50; p.pRP = 20; p.pQuad = 5; p.pCompute = 10; p.pXfer = 10; p.pMips = 5; p.minPass = 20; p.maxPass = 40; p.minImg = 6; p.maxImg = 12; p.maxBuf = 6; p.pDS = 15; }
		{ auto & p = add( "sepds" ); p.separateDS = true; p.pRaw = 40; p.pRP = 60; p.pDS = 70; p.frames = 3; }
		{ auto & p = add( "reset" ); p.pSamples = 8; p.pRaw = 15; p.pRP = 10; p.pQuad = 30; p.pMesh = 20; p.pCompute = 20; p.pXfer = 5; p.pReset = 35; p.pMulti = 40; p.pToggle = 20; p.frames = 5; }
		{ auto & p = add( "again" ); p.pRaw = 35; p.pRP = 25; p.pQuad = 8; p.pMesh = 4; p.pCompute = 13; p.pXfer = 15; p.pToggle = 40; p.pMulti = 25; p.pImplicit = 15; p.pMerged = 15; p.pExtraRecord = 35; p.pRecompile = 25; p.maxGraphs = 2; p.frames = 5; p.pHistory = 40; }
		{ auto & p = add( "shared" ); p.pRaw = 60; p.pRP = 20; p.pCompute = 10; p.pXfer = 10; p.minGraphs = 3; p.maxGraphs = 4; p.shareAll = true; p.siblings = true; p.minImg = 1; p.maxImg = 2; p.minPass = 5; p.maxPass = 12; p.pMips2 = 85; p.pExternal = 15; p.maxBuf = 2; p.frames = 3; }
		{ auto & p = add( "draw" ); p.pRaw = 10; p.pRP = 5; p.pQuad = 30; p.pMesh = 30; p.pCompute = 25; p.pDS = 25; p.pMulti = 50; p.pToggle = 15; p.frames = 4; p.pReset = 15; p.pDraw = 85; p.minImg = 3; p.maxImg = 6; }
		{ auto & p = add( "timers" ); p.pRaw = 25; p.pRP = 20; p.pQuad = 10; p.pMesh = 5; p.pCompute = 15; p.pXfer = 15; p.pMips = 5; p.pMulti = 30; p.pToggle = 40; p.pReset = 15; p.pTimers = 60; p.maxGraphs = 2; p.frames = 6; p.minPass = 1; }
		{ auto & p = add( "faults" ); p.pRaw = 20; p.pRP = 20; p.pQuad = 15; p.pMesh = 10; p.pCompute = 20; p.pXfer = 10; p.pMips = 5; p.pDS = 20; p.pMulti = 30; p.pToggle = 20; p.pMerged = 15; p.maxGraphs = 2; p.maxPass = 5; p.faults = true; }
		{ auto & p = add( "all" ); p.pSamples = 8; p.pRaw = 25; p.pRP = 20; p.pQuad = 12; p.pMesh = 6; p.pCompute = 15; p.pXfer = 15; p.pMips = 7; p.pDS = 20; p.pMulti = 25; p.pToggle = 25; p.pImplicit = 30
			; p.maxGraphs = 2; p.frames = 4; p.maxPass = 12; p.pHistory = 20; p.pReset = 25; p.pTimers = 20; p.pDraw = 40; p.pMerged = 12; p.highBits = true; }
		return r;
	}

	std::vector< std::string > profileNames()
	{
		std::vector< std::string > r;
		for ( auto & p : makeProfiles() ) r.push_back( p.name );
		return r;
	}

	Profile profileByName( std::string const & name )
	{
		for ( auto & p : makeProfiles() )
			if ( p.name == name ) return p;
		fprintf( stderr, "no profile %s\n", name.c_str() );
		exit( 2 );
	}

	namespace
	{
		struct Event { int kind; int pass; int index; };

		struct World
		{
			uint64_t seed;
			Profile prof;
			Rng rng;
			Rng periodRng{ 0 };
			Stats & stats;
			bool verbose;
			Variant * variant{};
			Driver drv;
			std::unique_ptr< crg::GraphContext > ctx;
			std::unique_ptr< crg::ResourceHandler > handler;
			Rng noise{ 0 };
			std::vector< std::unique_ptr< char[] > > noiseBlocks;
			std::vector< ImgSpec > imgs;
			std::vector< ViewSpec > views;
			std::vector< BufferSpec > bufs;
			std::vector< PassSpec > passes;
			std::vector< GraphSpec > graphs;
			std::vector< VkShaderModule > shaders;
			int frame{};
			int curGraph{};
			uint32_t nextBinding{};
			std::vector< Event > events;
			std::vector< int > slotOrder;         // full order of the running graph
			std::set< std::pair< int, int > > impPending;
			std::vector< std::pair< int, int > > expectedImp; // pass, view
			std::vector< std::vector< std::pair< int, int > > > impPlan;  // per slot
			std::vector< std::pair< int, int > > impSeen;
			std::string what;
			uint64_t eventHash{};
			bool orderReliable{ true };
			int curPass{ -1 };
			std::map< int, std::vector< uint64_t > > preSnapshot;
			// GPU times: last written timestamp, and the not yet retrieved duration of each pass and graph
			uint64_t lastTS{}, firstTS{}, passTS{};
			int endTS{ -1 };
			std::map< int, uint64_t > passTime, graphTime;
			std::map< int, uint64_t > passCpu, graphCpu;
			bool inRun{};
			// timers which own their query pool, used in the callbacks of raw passes
			std::map< int, std::unique_ptr< crg::FramePassTimer > > ownTimers;
			std::map< int, uint64_t > ownTime, ownCpu;
			std::map< int, int > ownDestroyed;
			std::vector< crg::OnFramePassDestroyConnection > ownConnections;
			int curRec{ -1 };
			uint64_t ownFirst{};

			World( uint64_t s, Profile p, Stats & st, bool v )
				: seed{ s }, prof{ std::move( p ) }, rng{ s }, stats{ st }, verbose{ v }
			{
			}

			uint32_t aIdx( ImgSpec const & i, uint32_t a )const { return ( i.ds && !i.hasD ) ? 1u : a; }

			bool is3D( int i )const { return imgs[i].data.info.imageType == VK_IMAGE_TYPE_3D; }
			bool is1D( int i )const { return imgs[i].data.info.imageType == VK_IMAGE_TYPE_1D; }

			// the type of a view of an image: some arrays of a single layer, and cubes when they can be
			VkImageViewType typeOf( int i, VkImageSubresourceRange const & r, uint32_t array, uint32_t cube )
			{
				if ( is3D( i ) ) return VK_IMAGE_VIEW_TYPE_3D;
				bool arr = r.layerCount > 1 || ( array && rng.chance( array ) );
				if ( is1D( i ) ) return arr ? VK_IMAGE_VIEW_TYPE_1D_ARRAY : VK_IMAGE_VIEW_TYPE_1D;
				if ( ( imgs[i].data.info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && r.layerCount % 6 == 0 && cube && rng.chance( cube ) )
					return r.layerCount > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE;
				return arr ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : VK_IMAGE_VIEW_TYPE_2D;
			}

			VkExtent3D mipExt( ImgSpec const & i, uint32_t m )const
			{
				auto & e = i.data.info.extent;
				return { std::max( 1u, e.width >> m ), std::max( 1u, e.height >> m ), std::max( 1u, e.depth >> m ) };
			}

			//---------------------------------------------------------------- generation

			void genImages()
			{
				auto n = rng.range( prof.minImg, prof.maxImg );
				uint32_t same = rng.chance( 35 ) ? 8u << rng.below( 3 ) : 0u;
				for ( uint32_t i = 0; i < n; ++i )
				{
					ImgSpec s;
					bool ds = rng.chance( prof.pDS );
					bool d3 = !ds && rng.chance( prof.p3D );
					bool d1 = !ds && !d3 && rng.chance( 6 );
					bool cube = !ds && !d3 && !d1 && rng.chance( 7 );
					VkFormat fmt;
					if ( ds )
					{
						VkFormat f[]{ VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_D32_SFLOAT_S8_UINT, VK_FORMAT_D16_UNORM, VK_FORMAT_S8_UINT };
						fmt = f[rng.below( prof.separateDS ? 5 : 5 )];
					}
					else
					{
						VkFormat f[]{ VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R32_SFLOAT, VK_FORMAT_R16G16B16A16_SFLOAT };
						fmt = f[rng.below( 3 )];
					}
					uint32_t mips = rng.chance( 100 - prof.pMips2 ) ? 1u : rng.range( 2, 4 );
					uint32_t layers = cube ? ( rng.chance( 75 ) ? 6u : 12u ) : d3 || rng.chance( 55 ) ? 1u : rng.range( 2, 4 );
					uint32_t w = same ? same : 8u << rng.below( 3 );
					VkExtent3D ext{ w, same || rng.chance( 60 ) ? w : 8u << rng.below( 3 ), d3 ? 1u << rng.range( 1, 3 ) : 1u };
					// sizes which are not powers of two, and levels of a single texel in a direction
					if ( !same && rng.chance( 20 ) ) ext = { rng.range( 8, 40 ), rng.range( 1, 12 ), d3 ? rng.range( 2, 8 ) : 1u };
					if ( d1 ) ext.height = 1u;
					if ( cube ) ext.height = ext.width;
					s.data = crg::ImageData{ "img" + std::to_string( i ), VkImageCreateFlags( cube ? VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT : 0 ), d3 ? VK_IMAGE_TYPE_3D : d1 ? VK_IMAGE_TYPE_1D : VK_IMAGE_TYPE_2D, fmt, ext
						, VK_IMAGE_USAGE_SAMPLED_BIT | VK_IMAGE_USAGE_STORAGE_BIT | VK_IMAGE_USAGE_TRANSFER_SRC_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT | VkImageUsageFlags( ds ? VK_IMAGE_USAGE_DEPTH_STENCIL_ATTACHMENT_BIT : VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT )
						, mips, layers };
					if ( !d3 && !d1 && !cube && mips == 1 && rng.chance( prof.pSamples ) )
					{
						// multisampled: for render passes, and to be sampled
						s.data.info.samples = rng.chance( 50 ) ? VK_SAMPLE_COUNT_4_BIT : VK_SAMPLE_COUNT_2_BIT;
						s.data.info.usage &= ~VkImageUsageFlags( VK_IMAGE_USAGE_STORAGE_BIT );
						stats.add( "multisampled images" );
					}
					if ( !ds && fmt != VK_FORMAT_R16G16B16A16_SFLOAT && rng.chance( 12 ) ) s.data.info.flags |= VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT;
					s.ds = ds;
					s.hasD = isDepthFmt( fmt );
					s.hasS = isStencilFmt( fmt );
					s.L = layers;
					s.M = mips;
					s.A = s.hasD && s.hasS ? 2u : 1u;
					s.aspects = ds ? VkImageAspectFlags( ( s.hasD ? VK_IMAGE_ASPECT_DEPTH_BIT : 0 ) | ( s.hasS ? VK_IMAGE_ASPECT_STENCIL_BIT : 0 ) ) : VK_IMAGE_ASPECT_COLOR_BIT;
					s.part = rng.chance( 60 );
					s.external = rng.chance( prof.pExternal );
					VkImageLayout el[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL };
					s.extLayout = el[rng.below( 4 )];
					s.defd.assign( s.cells(), s.external ? 1 : 0 );
					s.model.assign( s.cells(), 0 );
					s.writersOf.resize( s.cells() );
					s.readersOf.resize( s.cells() );
					imgs.push_back( std::move( s ) );
				}
			}

			void genBuffers()
			{
				auto n = rng.range( prof.minBuf, prof.maxBuf );
				for ( uint32_t i = 0; i < n; ++i )
				{
					BufferSpec b;
					b.size = Granule * rng.range( 4, 40 );
					b.name = "buf" + std::to_string( i );
					b.h = drv.makeBuffer( b.size, b.name );
					b.view = drv.makeBufferView( b.h );
					size_t g = size_t( b.size / Granule );
					b.defd.assign( g, 0 );
					b.model.assign( g, 0 );
					b.writersOf.resize( g );
					b.readersOf.resize( g );
					bufs.push_back( std::move( b ) );
				}
			}

			// A view on image i; at: -1 = any, otherwise must be usable as an attachment (single level)
			int makeView( int i, bool attach, bool single, VkImageAspectFlags aspect, int graph, int fixedMip = -1, int fixedLayers = -1 )
			{
				auto & im = imgs[i];
				VkImageSubresourceRange r{ aspect, 0, 1, 0, 1 };
				if ( is3D( i ) )
				{
					r.levelCount = ( attach || single ) ? 1u : rng.range( 1, im.M );
					r.baseMipLevel = rng.below( im.M - r.levelCount + 1 );
				}
				else if ( im.part )
				{
					// elements are ( mip, all layers )
					r.levelCount = ( attach || single ) ? 1u : rng.chance( 50 ) ? 1u : rng.range( 1, im.M );
					r.baseMipLevel = rng.below( im.M - r.levelCount + 1 );
					r.layerCount = im.L;
				}
				else
				{
					r.levelCount = ( attach || single ) ? 1u : rng.chance( 40 ) ? im.M : rng.range( 1, im.M );
					r.baseMipLevel = rng.below( im.M - r.levelCount + 1 );
					r.layerCount = rng.chance( 40 ) ? im.L : rng.range( 1, im.L );
					r.baseArrayLayer = rng.below( im.L - r.layerCount + 1 );
				}
				if ( fixedMip >= 0 ) r.baseMipLevel = uint32_t( fixedMip );
				if ( fixedLayers > 0 )
				{
					r.layerCount = uint32_t( fixedLayers );
					if ( !im.part ) r.baseArrayLayer = rng.below( im.L - r.layerCount + 1 );
				}
				return addView( i, r, typeOf( i, r, 15, attach ? 0 : 60 ), graph );
			}

			// The views a view is made of, when it is merged from several ones: per level, per layer, or both.
			int mergedView( int vi, int graph )
			{
				auto v = views[vi];
				if ( imgs[v.img].data.info.flags & VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ) return vi;
				bool m = v.range.levelCount > 1, l = v.range.layerCount > 1 && !is3D( v.img );
				if ( !m && !l ) return vi;
				if ( m && l ) { auto k = rng.below( 3 ); m = k != 0; l = k != 1; }
				std::vector< int > parts;
				uint32_t ml = m ? 1u : v.range.levelCount, ll = l ? ( rng.chance( 70 ) ? 1u : rng.range( 1, v.range.layerCount ) ) : v.range.layerCount;
				for ( uint32_t a = 0; a < v.range.layerCount; a += ll )
					for ( uint32_t b = 0; b < v.range.levelCount; b += ml )
					{
						VkImageSubresourceRange r{ v.range.aspectMask, v.range.baseMipLevel + b, ml, v.range.baseArrayLayer + a, std::min( ll, v.range.layerCount - a ) };
						parts.push_back( addView( v.img, r, typeOf( v.img, r, 0, 0 ), graph ) );
					}
				if ( parts.size() < 2 ) return vi;
				rng.shuffle( parts );
				// the type is the one of the first view, made an array or a cube if need be
				v.type = views[parts[0]].type;
				if ( v.range.layerCount > 1 && !is3D( v.img ) )
				{
					bool cube = ( imgs[v.img].data.info.flags & VK_IMAGE_CREATE_CUBE_COMPATIBLE_BIT ) && v.range.layerCount % 6 == 0 && v.range.baseArrayLayer == 0;
					if ( v.type == VK_IMAGE_VIEW_TYPE_1D ) v.type = VK_IMAGE_VIEW_TYPE_1D_ARRAY;
					if ( v.type == VK_IMAGE_VIEW_TYPE_2D ) v.type = !cube ? VK_IMAGE_VIEW_TYPE_2D_ARRAY : v.range.layerCount > 6 ? VK_IMAGE_VIEW_TYPE_CUBE_ARRAY : VK_IMAGE_VIEW_TYPE_CUBE;
				}
				for ( size_t k = 0; k < views.size(); ++k )
					if ( !views[k].merged.empty() && views[k].img == v.img && views[k].type == v.type && !memcmp( &views[k].range, &v.range, sizeof v.range ) )
						return int( k );
				v.merged = parts;
				v.id = crg::ImageViewId{};
				views.push_back( std::move( v ) );
				stats.add( "merged views" );
				return int( views.size() - 1 );
			}

			int addView( int i, VkImageSubresourceRange r, VkImageViewType t, int graph )
			{
				for ( size_t k = 0; k < views.size(); ++k )
					if ( views[k].merged.empty() && views[k].img == i && views[k].type == t && !memcmp( &views[k].range, &r, sizeof r ) )
						return int( k );
				auto & im = imgs[i];
				ViewSpec v;
				v.img = i;
				v.range = r;
				v.type = t;
				v.format = im.data.info.format;
				if ( ( im.data.info.flags & VK_IMAGE_CREATE_MUTABLE_FORMAT_BIT ) && rng.chance( 50 ) )
				{
					// of the same size class as the one of the image
					v.format = v.format == VK_FORMAT_R32_SFLOAT ? VK_FORMAT_R8G8B8A8_UNORM : VK_FORMAT_R32_SFLOAT;
					stats.add( "views of another format" );
				}
				v.id = graphs[graph].graph->createView( crg::ImageViewData{ im.data.name + "v" + std::to_string( views.size() ), im.id, 0u, t, v.format, r } );
				fillCells( v );
				views.push_back( std::move( v ) );
				return int( views.size() - 1 );
			}

			void fillCells( ViewSpec & v )
			{
				auto & im = imgs[v.img];
				auto & r = v.range;
				for ( uint32_t a = 0; a < im.A; ++a )
				{
					VkImageAspectFlags bit = im.A == 2 ? ( a == 0 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT ) : im.aspects;
					if ( !( r.aspectMask & bit ) ) continue;
					for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
						for ( uint32_t m = r.baseMipLevel; m < r.baseMipLevel + r.levelCount; ++m )
							v.cells.push_back( im.cell( a, l, m ) );
				}
			}

			bool overlaps( PassSpec const & p, std::vector< int > const & vs )const
			{
				// no two attachments of a pass may share cells (per index); the union over indices is used for simplicity when single
				for ( auto & a : p.atts )
					for ( size_t k = 0; k < std::max( a.views.size(), vs.size() ); ++k )
					{
						auto & x = views[a.views.size() == 1 ? a.views[0] : a.views[k % a.views.size()]];
						auto & y = views[vs.size() == 1 ? vs[0] : vs[k % vs.size()]];
						if ( x.img != y.img ) continue;
						// layout is shared between aspects: any common ( layer, mip ) counts
						auto & im = imgs[x.img];
						for ( auto c : x.cells )
							for ( auto d : y.cells )
								if ( c % ( im.L * im.M ) == d % ( im.L * im.M ) ) return true;
					}
				return false;
			}

			bool defined( int v )const
			{
				for ( auto c : views[v].cells ) if ( !imgs[views[v].img].defd[c] ) return false;
				return true;
			}

			VkClearValue rndClear( bool ds )
			{
				VkClearValue c{};
				if ( ds )
				{
					c.depthStencil.depth = float( rng.below( 100 ) ) / 100.0f;
					c.depthStencil.stencil = rng.below( 256 );
				}
				else
					for ( auto & f : c.color.uint32 ) f = rng.below( 1000 );
				return c;
			}

			// candidate graphs: images created by graph g may be used by graph g or those which depend on it
			bool visible( int img, int g )const
			{
				if ( graphs[g].closure.count( imgs[img].graph ) ) return true;
				return false;
			}

			VkSampleCountFlagBits samples( int i )const { return imgs[i].data.info.samples; }

			// A multisampled image is sampled, or attached with others of the same sample count
			bool samplesFit( PassSpec const & p, Use u, int i )const
			{
				auto s = samples( i );
				if ( isRP( u ) )
				{
					for ( auto & a : p.atts )
						if ( isRP( a.use ) && samples( views[a.views[0]].img ) != s ) return false;
					return s == VK_SAMPLE_COUNT_1_BIT || p.kind == PK::RenderPass;
				}
				return s == VK_SAMPLE_COUNT_1_BIT || u == Use::Sampled;
			}

			bool tryAtt( PassSpec & p, Use u, int forceImg = -1, int fixedMip = -1, int fixedLayers = -1, VkExtent3D const * needExt = nullptr )
			{
				for ( int tries = 0; tries < 8; ++tries )
				{
					int i = forceImg >= 0 ? forceImg : int( rng.below( uint32_t( imgs.size() ) ) );
					auto & im = imgs[i];
					if ( !visible( i, p.graph ) ) continue;
					bool rp = isRP( u );
					if ( rp && ( is3D( i ) || is1D( i ) ) ) continue;
					if ( !samplesFit( p, u, i ) ) continue;
					if ( rp && reads( u ) && !im.part ) continue;
					VkImageAspectFlags aspect = im.aspects;
					switch ( u )
					{
					case Use::CIn: case Use::CIO: case Use::COut: if ( im.ds ) continue; break;
					case Use::DIn: case Use::DIO: case Use::DOut:
						if ( !im.hasD ) continue;
						// separate layouts on combined formats would need per aspect tracking: not generated
						if ( prof.separateDS && im.hasS ) continue;
						aspect = im.hasS && rng.chance( 50 ) ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_DEPTH_BIT;
						break;
					case Use::SIn: case Use::SIO: case Use::SOut:
						if ( !im.hasS ) continue;
						if ( prof.separateDS && im.hasD ) continue;
						aspect = im.hasD && rng.chance( 50 ) ? VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
						break;
					case Use::DSIn: case Use::DSIO: case Use::DSOut: if ( !im.hasD || !im.hasS ) continue; break;
					case Use::Sampled:
						if ( im.A == 2 && !prof.separateDS ) aspect = rng.chance( 70 ) ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT;
						break;
					case Use::StIn: case Use::StOut: case Use::StClr: case Use::StIO: if ( im.ds ) continue; break;
					default: break;
					}
					bool single = u == Use::StIn || u == Use::StOut || u == Use::StIO || u == Use::StClr ? rng.chance( 60 ) : false;
					std::vector< int > vs;
					uint32_t nv = p.maxPass > 1 && !im.shared && rng.chance( 75 ) ? p.maxPass : 1u;
					bool ok = true;
					for ( uint32_t k = 0; k < nv && ok; ++k )
					{
						int ii = i;
						if ( k && rng.chance( 50 ) )
						{
							// another image of the same kind
							for ( int t2 = 0; t2 < 6; ++t2 )
							{
								int c = int( rng.below( uint32_t( imgs.size() ) ) );
								if ( visible( c, p.graph ) && imgs[c].data.info.format == im.data.info.format && imgs[c].data.info.imageType == im.data.info.imageType && samples( c ) == samples( i )
									&& ( !rp || !reads( u ) || imgs[c].part ) )
								{ ii = c; break; }
							}
						}
						int fm = fixedMip, fl = fixedLayers;
						if ( rp && k )
						{
							fm = int( views[vs[0]].range.baseMipLevel );
							fl = int( views[vs[0]].range.layerCount );
						}
						if ( fm >= int( imgs[ii].M ) || fl > int( imgs[ii].L ) || ( imgs[ii].part && fl > 0 && fl != int( imgs[ii].L ) ) ) { ok = false; break; }
						int v = makeView( ii, rp, single, aspect, p.graph, fm, fl );
						if ( prof.pMerged && rng.chance( prof.pMerged ) ) v = mergedView( v, p.graph );
						if ( rp )
						{
							auto e = mipExt( imgs[ii], views[v].range.baseMipLevel );
							VkExtent3D ref = needExt ? *needExt : k ? mipExt( imgs[views[vs[0]].img], views[vs[0]].range.baseMipLevel ) : e;
							if ( e.width != ref.width || e.height != ref.height ) { ok = false; break; }
							if ( k && views[v].format != views[vs[0]].format ) { ok = false; break; }
							// the library sizes framebuffers with the shifted, unclamped extent
						}
						if ( reads( u ) && u != Use::Impl && !defined( v ) && !( rng.chance( prof.pHistory ) && !imgs[ii].shared ) ) { ok = false; break; }
						if ( u == Use::Impl && !defined( v ) ) { ok = false; break; }
						vs.push_back( v );
					}
					if ( !ok || vs.empty() ) continue;
					// an index-dependent write must not be relied on by others unless every index writes it
					if ( overlaps( p, vs ) ) continue;
					AttSpec a;
					a.use = u;
					a.views = vs;
					a.clear = rndClear( im.ds );
					if ( prof.pDraw && u == Use::CIO && rng.chance( 60 ) )
						a.blend = { rng.below( 2 ), VkBlendFactor( rng.below( 15 ) ), VkBlendFactor( rng.below( 15 ) ), VkBlendOp( rng.below( 5 ) ), VkBlendFactor( rng.below( 15 ) ), VkBlendFactor( rng.below( 15 ) ), VkBlendOp( rng.below( 5 ) ), rng.below( 16 ) };
					a.binding = nextBinding;
					if ( u == Use::Sampled || ( u >= Use::StIn && u <= Use::StIO ) ) ++nextBinding;
					if ( u == Use::Impl )
					{
						VkImageLayout w[]{ VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL };
						a.wanted = w[rng.below( 4 )];
					}
					if ( u == Use::Sampled )
					{
						a.sampler.magFilter = rng.chance( 50 ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
						a.sampler.minFilter = rng.chance( 50 ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
						a.sampler.maxLod = float( rng.below( 3 ) );
					}
					p.atts.push_back( std::move( a ) );
					return true;
				}
				return false;
			}

			bool tryBuf( PassSpec & p, BUse u )
			{
				if ( bufs.empty() ) return false;
				for ( int tries = 0; tries < 6; ++tries )
				{
					std::vector< int > bs;
					uint32_t nb = p.maxPass > 1 && rng.chance( 60 ) ? p.maxPass : 1u;
					for ( uint32_t k = 0; k < nb; ++k ) bs.push_back( int( rng.below( uint32_t( bufs.size() ) ) ) );
					VkDeviceSize mn = ~0ULL;
					for ( auto b : bs ) mn = std::min( mn, bufs[b].size );
					auto gran = uint32_t( mn / Granule );
					VkDeviceSize off = 0, size = 0;
					if ( bs.size() == 1 && rng.chance( 45 ) ) { off = 0; size = rng.chance( 50 ) ? VK_WHOLE_SIZE : bufs[bs[0]].size; }
					else
					{
						auto n = rng.range( 1, gran );
						off = Granule * rng.below( gran - n + 1 );
						size = Granule * n;
					}
					if ( bs.size() == 1 && off && off + size == bufs[bs[0]].size && rng.chance( 50 ) ) size = VK_WHOLE_SIZE;
					auto real = [&]( int b ){ return size == VK_WHOLE_SIZE ? bufs[b].size - off : size; };
					bool ok = true;
					for ( auto & a : p.bufs )
						for ( auto x : a.bufs ) for ( auto y : bs ) if ( x == y ) ok = false;
					if ( reads( u ) )
						for ( auto b : bs )
							for ( auto g = off / Granule; g < ( off + real( b ) ) / Granule; ++g )
								if ( !bufs[b].defd[g] ) ok = false;
					if ( !ok && reads( u ) && rng.chance( 100 - prof.pHistory ) ) continue;
					if ( !ok && !reads( u ) ) continue;
					if ( !ok )
					{
						bool clash = false;
						for ( auto & a : p.bufs ) for ( auto x : a.bufs ) for ( auto y : bs ) if ( x == y ) clash = true;
						if ( clash ) continue;
					}
					BAttSpec a;
					a.use = u;
					a.bufs = bs;
					a.off = off;
					a.size = size;
					// the clears are for whole words
					if ( u == BUse::StClr && size != VK_WHOLE_SIZE && rng.chance( 20 ) ) a.size -= rng.range( 1, 3 );
					a.binding = nextBinding;
					if ( u == BUse::Impl )
						a.wanted = rng.chance( 50 ) ? crg::AccessState{ VK_ACCESS_SHADER_READ_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT } : crg::AccessState{ VK_ACCESS_TRANSFER_READ_BIT, VK_PIPELINE_STAGE_TRANSFER_BIT };
					if ( u != BUse::TrIn && u != BUse::TrOut && u != BUse::TrIO && u != BUse::Impl ) ++nextBinding;
					p.bufs.push_back( a );
					return true;
				}
				return false;
			}

			// what the attachment covers, in whole granules
			VkDeviceSize realSize( BAttSpec const & a, int b )const { return a.size == VK_WHOLE_SIZE ? bufs[b].size - a.off : ( a.size + Granule - 1 ) / Granule * Granule; }

			// how much the pass's attachment at index i touches
			template< typename F > void forCells( PassSpec const & p, AttSpec const & a, F && f )const
			{
				( void )p;
				std::set< int > done;
				for ( auto v : a.views ) if ( done.insert( v ).second ) f( views[v] );
			}

			// whoever used a part of an image before must be known by the graph of the pass
			bool known( int graph, int vi )const
			{
				auto & v = views[vi];
				auto & im = imgs[v.img];
				for ( auto c : v.cells )
					for ( uint32_t x = 0; x < im.A; ++x )
					{
						auto cell = c % ( im.L * im.M ) + x * im.L * im.M;
						for ( auto id : im.writersOf[cell] ) if ( !graphs[graph].closure.count( passes[id].graph ) ) return false;
						for ( auto id : im.readersOf[cell] ) if ( !graphs[graph].closure.count( passes[id].graph ) ) return false;
					}
				return true;
			}

			bool knownPast( PassSpec const & p )const
			{
				for ( auto & a : p.atts )
					for ( auto vi : a.views ) if ( !known( p.graph, vi ) ) return false;
				return true;
			}

			void genPass( int n )
			{
				PassSpec p;
				p.graph = int( graphs.size() ) == 1 ? 0 : n * int( graphs.size() ) / int( passes.capacity() );
				p.graph = std::min( p.graph, int( graphs.size() ) - 1 );
				p.name = "p" + std::to_string( n );
				nextBinding = 0;
				if ( rng.chance( prof.pMulti ) ) p.maxPass = rng.range( 2, 3 );
				uint32_t w[]{ prof.pRaw, prof.pRP, prof.pQuad, prof.pMesh, prof.pCompute, prof.pXfer, prof.pMips };
				uint32_t tot = 0;
				for ( auto x : w ) tot += x;
				uint32_t x = rng.below( tot ), k = 0;
				while ( x >= w[k] ) { x -= w[k]; ++k; }
				bool ok = false;
				switch ( k )
				{
				case 0: p.kind = PK::Raw; break;
				case 1: p.kind = PK::RenderPass; break;
				case 2: p.kind = PK::Quad; break;
				case 3: p.kind = PK::Mesh; break;
				case 4: p.kind = PK::Compute; break;
				case 5: { PK t[]{ PK::Copy, PK::Blit, PK::BufCopy, PK::B2I, PK::I2B }; p.kind = t[rng.below( 5 )]; break; }
				default: p.kind = PK::Mips; break;
				}
				p.compute = p.kind == PK::Compute || ( p.kind == PK::Raw && rng.chance( 50 ) );
				p.resettable = rng.chance( 30 );
				switch ( p.kind )
				{
				case PK::Raw: ok = genRaw( p ); break;
				case PK::Compute: ok = genCompute( p ); break;
				case PK::RenderPass: case PK::Quad: case PK::Mesh: ok = genRP( p ); break;
				case PK::Copy: case PK::Blit: ok = genImgCopy( p ); break;
				case PK::BufCopy: ok = genBufCopy( p ); break;
				case PK::B2I: case PK::I2B: ok = genBufImg( p ); break;
				case PK::Mips: ok = genMips( p ); break;
				}
				if ( ok && !knownPast( p ) ) ok = false;
				if ( !ok )
				{
					// fall back on something which always works
					p = PassSpec{};
					p.graph = int( graphs.size() ) == 1 ? 0 : std::min( n * int( graphs.size() ) / int( passes.capacity() ), int( graphs.size() ) - 1 );
					p.name = "p" + std::to_string( n );
					p.kind = PK::Raw;
					p.compute = true;
					nextBinding = 0;
					ok = tryAtt( p, Use::StOut ) || tryAtt( p, Use::TrOut ) || tryBuf( p, BUse::StOut );
					if ( !ok || !knownPast( p ) ) return;
				}
				p.toggles = rng.chance( prof.pToggle );
				for ( auto & a : p.atts ) for ( auto v : a.views ) if ( imgs[views[v].img].shared ) p.toggles = false;
				if ( p.toggles && rng.chance( prof.pImplicit ) ) genImplicit( p );
				commit( p );
			}

			bool genRaw( PassSpec & p )
			{
				auto n = rng.range( 1, 4 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					Use u[]{ Use::Sampled, Use::Sampled, Use::StIn, Use::StOut, Use::StClr, Use::StIO, Use::TrIn, Use::TrOut, Use::TrIO, Use::StOut, Use::TrOut };
					if ( rng.chance( prof.pTransitions / 3 ) ) tryAtt( p, Use::Impl );
					else tryAtt( p, u[rng.below( 11 )] );
				}
				n = rng.below( 3 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					BUse u[]{ BUse::Uniform, BUse::StIn, BUse::StOut, BUse::StClr, BUse::StIO, BUse::TrIn, BUse::TrOut, BUse::TrIO, BUse::StOut, BUse::StInV, BUse::StOutV, BUse::StIOV, BUse::StClrV, BUse::UniformV };
					if ( rng.chance( prof.pTransitions / 4 ) ) tryBuf( p, BUse::Impl );
					else tryBuf( p, u[rng.below( 14 )] );
				}
				return !p.atts.empty() || !p.bufs.empty();
			}

			bool genCompute( PassSpec & p )
			{
				auto n = rng.range( 1, 3 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					Use u[]{ Use::Sampled, Use::StIn, Use::StOut, Use::StClr, Use::StIO };
					tryAtt( p, u[rng.below( 5 )] );
				}
				n = rng.below( 3 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					BUse u[]{ BUse::Uniform, BUse::StIn, BUse::StOut, BUse::StClr, BUse::StIO, BUse::StInV, BUse::StOutV, BUse::StIOV, BUse::UniformV };
					tryBuf( p, u[rng.below( 9 )] );
				}
				return !p.atts.empty() || !p.bufs.empty();
			}

			bool genRP( PassSpec & p )
			{
				// first attachment decides on the size
				Use cu[]{ Use::COut, Use::CIO, Use::COut, Use::CIn };
				Use du[]{ Use::DOut, Use::DIO, Use::DIn, Use::DSOut, Use::DSIO, Use::DSIn, Use::SOut, Use::SIO, Use::SIn };
				bool depth = rng.chance( prof.pDS );
				bool colourOnly = !depth;
				if ( depth && !tryAtt( p, du[rng.below( 9 )] ) ) depth = false;
				auto nc = colourOnly || !depth ? rng.range( 1, 3 ) : rng.below( 3 );
				for ( uint32_t i = 0; i < nc; ++i )
				{
					if ( p.atts.empty() ) { tryAtt( p, cu[rng.below( 4 )] ); continue; }
					auto & v0 = views[p.atts[0].views[0]];
					auto ext = mipExt( imgs[v0.img], v0.range.baseMipLevel );
					tryAtt( p, cu[rng.below( 4 )], -1, -1, int( v0.range.layerCount ), &ext );
				}
				if ( p.atts.empty() ) return false;
				auto n = rng.below( 3 );
				for ( uint32_t i = 0; i < n; ++i )
					tryAtt( p, rng.chance( 75 ) ? Use::Sampled : rng.chance( 50 ) ? Use::StIn : Use::StOut );
				n = rng.below( 2 );
				for ( uint32_t i = 0; i < n; ++i )
				{
					BUse u[]{ BUse::Uniform, BUse::StIn, BUse::StOut, BUse::UniformV, BUse::StInV };
					tryBuf( p, u[rng.below( 5 )] );
				}
				return true;
			}

			bool shareCells( int x, int y )const
			{
				if ( views[x].img != views[y].img ) return false;
				auto & im = imgs[views[x].img];
				for ( auto c : views[x].cells )
					for ( auto d : views[y].cells )
						if ( c % ( im.L * im.M ) == d % ( im.L * im.M ) ) return true;
				return false;
			}

			// A one level view of an image like the one of view \p like (same number of layers, extent if needed), sharing nothing with the others; -1 if none is found
			int likeView( PassSpec const & p, int like, bool extent, bool read, std::vector< int > const & others )
			{
				auto lv = views[like];
				auto & lm = imgs[lv.img];
				auto le = mipExt( lm, lv.range.baseMipLevel );
				for ( int t = 0; t < 12; ++t )
				{
					int i = int( rng.below( uint32_t( imgs.size() ) ) );
					auto & im = imgs[i];
					if ( !visible( i, p.graph ) || im.ds != lm.ds || im.aspects != lm.aspects || im.data.info.imageType != lm.data.info.imageType || samples( i ) != samples( lv.img ) ) continue;
					if ( im.ds && im.data.info.format != lm.data.info.format ) continue;
					if ( im.part && !is3D( i ) && im.L != lv.range.layerCount ) continue;
					if ( im.L < lv.range.layerCount ) continue;
					int fm = -1;
					if ( extent )
					{
						std::vector< int > fit;
						for ( uint32_t m = 0; m < im.M; ++m )
							if ( auto e = mipExt( im, m ); e.width == le.width && e.height == le.height && e.depth == le.depth ) fit.push_back( int( m ) );
						if ( fit.empty() ) continue;
						fm = rng.pick( fit );
					}
					int v = makeView( i, false, true, im.aspects, p.graph, fm, is3D( i ) ? -1 : int( lv.range.layerCount ) );
					if ( read && !defined( v ) && !( rng.chance( prof.pHistory ) && !im.shared ) ) continue;
					bool ok = true;
					for ( auto o : others ) if ( shareCells( o, v ) ) ok = false;
					if ( ok ) return v;
				}
				return -1;
			}

			bool genImgCopy( PassSpec & p )
			{
				auto n = p.maxPass;
				p.maxPass = 1;
				if ( !tryAtt( p, Use::TrIn ) ) return false;
				auto sv = p.atts[0].views[0];
				auto si = views[sv].img;
				// rework the source into a single level view
				auto r = views[sv].range;
				r.levelCount = 1;
				auto type = views[sv].type;
				sv = addView( si, r, type, p.graph );
				p.atts[0].views = { sv };
				auto se = mipExt( imgs[si], r.baseMipLevel );
				int dv = likeView( p, sv, p.kind == PK::Copy, false, { sv } );
				if ( dv < 0 ) return false;
				p.atts.emplace_back();
				p.atts[1].use = Use::TrOut;
				p.atts[1].views = { dv };
				p.ext = se;
				p.se = se;
				p.de = mipExt( imgs[views[dv].img], views[dv].range.baseMipLevel );
				if ( p.kind == PK::Blit )
				{
					// sometimes a sub region
					auto sub = [&]( VkOffset3D & o, VkExtent3D & e )
					{
						if ( e.width > 2 && rng.chance( 30 ) ) { o.x = int( e.width / 4 ); e.width = e.width / 2; }
						if ( e.height > 2 && rng.chance( 30 ) ) { o.y = int( e.height / 4 ); e.height = e.height / 2; }
					};
					sub( p.so, p.se );
					sub( p.dof, p.de );
					p.filter = !imgs[si].ds && rng.chance( 70 ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
				}
				else
				{
					if ( rng.chance( 30 ) )
					{
						VkImageLayout l[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL };
						p.finalLayout = l[rng.below( 3 )];
					}
					// several copies in a pass
					while ( rng.chance( 75 ) && p.atts.size() < 6 )
					{
						std::vector< int > all;
						for ( auto & a : p.atts ) all.push_back( a.views[0] );
						auto s2 = likeView( p, sv, true, true, all );
						if ( s2 < 0 ) break;
						all.push_back( s2 );
						auto d2 = likeView( p, sv, true, false, all );
						if ( d2 < 0 ) break;
						p.atts.emplace_back();
						p.atts.back().use = Use::TrIn;
						p.atts.back().views = { s2 };
						p.atts.emplace_back();
						p.atts.back().use = Use::TrOut;
						p.atts.back().views = { d2 };
						stats.add( "passes with several copies" );
					}
				}
				if ( n > 1 )
				{
					// other views per pass index
					for ( size_t k = 0; k < p.atts.size(); ++k )
					{
						auto & a = p.atts[k];
						if ( imgs[views[a.views[0]].img].shared || rng.chance( 25 ) ) continue;
						std::vector< int > vs{ a.views[0] };
						for ( uint32_t i = 1; i < n; ++i )
						{
							std::vector< int > others;
							for ( size_t o = 0; o < p.atts.size(); ++o )
								if ( o != k ) others.push_back( p.atts[o].view( i ) );
							auto v = likeView( p, a.views[0], true, reads( a.use ), others );
							if ( v < 0 || imgs[views[v].img].shared ) v = a.views[0];
							for ( auto o : others ) if ( shareCells( o, v ) ) v = -1;
							if ( v < 0 ) break;
							vs.push_back( v );
						}
						if ( vs.size() != n ) continue;
						a.views = vs;
						p.maxPass = n;
					}
				}
				return true;
			}

			bool genBufCopy( PassSpec & p )
			{
				if ( bufs.size() < 2 || !tryBuf( p, BUse::TrIn ) || !tryBuf( p, BUse::TrOut ) ) return false;
				auto s = realSize( p.bufs[0], p.bufs[0].bufs[0] ), d = realSize( p.bufs[1], p.bufs[1].bufs[0] );
				auto g = uint32_t( std::min( s, d ) / Granule );
				auto n = rng.range( 1, g );
				p.copyOff = Granule * rng.below( g - n + 1 );
				p.copySize = Granule * n;
				return true;
			}

			bool genBufImg( PassSpec & p )
			{
				for ( int t = 0; t < 10; ++t )
				{
					p.atts.clear();
					p.bufs.clear();
					bool b2i = p.kind == PK::B2I;
					if ( !tryAtt( p, b2i ? Use::TrOut : Use::TrIn ) ) return false;
					auto & im = imgs[views[p.atts[0].views[0]].img];
					if ( im.aspects == ( VK_IMAGE_ASPECT_DEPTH_BIT | VK_IMAGE_ASPECT_STENCIL_BIT ) ) continue;
					auto r = views[p.atts[0].views[0]].range;
					auto e = mipExt( im, r.baseMipLevel );
					bool same = true;
					for ( auto & v : p.atts[0].views )
					{
						auto q = views[v].range;
						auto qe = mipExt( imgs[views[v].img], q.baseMipLevel );
						if ( q.layerCount != r.layerCount || qe.width != e.width || qe.height != e.height || qe.depth != e.depth ) same = false;
						q.levelCount = 1;
						v = addView( views[v].img, q, views[v].type, p.graph );
					}
					if ( !same ) p.atts[0].views.resize( 1 );
					if ( !tryBuf( p, b2i ? BUse::TrIn : BUse::TrOut ) ) return false;
					p.ext = mipExt( im, r.baseMipLevel );
					uint64_t bytes = uint64_t( p.ext.width ) * p.ext.height * p.ext.depth * r.layerCount * texel( im.data.info.format );
					if ( bytes > realSize( p.bufs[0], p.bufs[0].bufs[0] ) ) continue;
					return true;
				}
				return false;
			}

			static uint32_t texel( VkFormat f ) { return f == VK_FORMAT_R16G16B16A16_SFLOAT ? 8u : f == VK_FORMAT_D16_UNORM ? 2u : f == VK_FORMAT_S8_UINT ? 1u : 4u; }

			bool genMips( PassSpec & p )
			{
				auto n = p.maxPass;
				p.maxPass = 1;
				std::vector< int > vs;
				for ( int t = 0; t < 10 && vs.size() < n; ++t )
				{
					int i = int( rng.below( uint32_t( imgs.size() ) ) );
					auto & im = imgs[i];
					if ( !visible( i, p.graph ) || ( im.ds && im.part ) || samples( i ) != VK_SAMPLE_COUNT_1_BIT ) continue;
					if ( !vs.empty() && ( im.shared || imgs[views[vs[0]].img].shared ) ) break;
					// level 0 of every layer concerned must be defined
					VkImageSubresourceRange r{ im.aspects, 0, im.M, 0, im.L };
					if ( !im.part && im.L > 1 && rng.chance( 60 ) )
					{
						r.layerCount = rng.range( 1, im.L - 1 );
						r.baseArrayLayer = rng.below( im.L - r.layerCount + 1 );
					}
					bool ok = true;
					for ( uint32_t l = r.baseArrayLayer; l < r.baseArrayLayer + r.layerCount; ++l )
						for ( uint32_t a = 0; a < im.A; ++a )
							if ( !im.defd[im.cell( a, l, 0 )] ) ok = false;
					// an earlier graph must not rely on the history of an image changed by a later one
					if ( im.shared ) for ( auto d : im.defd ) if ( !d ) ok = false;
					if ( !ok ) continue;
					vs.push_back( addView( i, r, typeOf( i, r, 0, 50 ), p.graph ) );
				}
				if ( vs.empty() ) return false;
				if ( vs.size() == n ) p.maxPass = n;
				else vs.resize( 1 );
				p.atts.emplace_back();
				p.atts.back().use = Use::TrIO;
				p.atts.back().views = vs;
				return true;
			}

			void genImplicit( PassSpec & p )
			{
				for ( size_t k = 0; k < p.atts.size(); ++k )
				{
					auto & a = p.atts[k];
					if ( !writes( a.use ) || a.views.size() != 1 ) continue;
					auto & v = views[a.views[0]];
					if ( !v.merged.empty() ) continue;
					if ( imgs[v.img].A == 2 && v.cells.size() && v.range.aspectMask != imgs[v.img].aspects ) continue;
					p.implicitAtt = int( k );
					p.implicitClear = rndClear( imgs[v.img].ds );
					VkImageLayout l[]{ VK_IMAGE_LAYOUT_UNDEFINED, VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL };
					p.implicitFinal = l[rng.below( 2 )];
					if ( v.range.levelCount == 1 && !is3D( v.img ) && rng.chance( 45 ) )
					{
						// instead of a clear, the content of a view the pass reads
						bool blit = rng.chance( 40 );
						auto e = mipExt( imgs[v.img], v.range.baseMipLevel );
						for ( auto & x : p.atts )
						{
							if ( !reads( x.use ) || writes( x.use ) || x.views.size() != 1 ) continue;
							auto & sv = views[x.views[0]];
							auto se = mipExt( imgs[sv.img], sv.range.baseMipLevel );
							if ( !sv.merged.empty() || is3D( sv.img ) || imgs[sv.img].ds != imgs[v.img].ds || sv.range.aspectMask != v.range.aspectMask || sv.range.levelCount != 1 || sv.range.layerCount != v.range.layerCount ) continue;
							if ( imgs[sv.img].ds && imgs[sv.img].data.info.format != imgs[v.img].data.info.format ) continue;
							if ( imgs[sv.img].data.info.imageType != imgs[v.img].data.info.imageType || imgs[sv.img].shared || samples( sv.img ) != samples( v.img ) || ( blit && samples( v.img ) != VK_SAMPLE_COUNT_1_BIT ) ) continue;
							if ( !blit && ( e.width != se.width || e.height != se.height ) ) continue;
							p.implicitKind = blit ? 2 : 1;
							p.implicitSrc = x.views[0];
							p.implicitFilter = blit && !imgs[v.img].ds && rng.chance( 60 ) ? VK_FILTER_LINEAR : VK_FILTER_NEAREST;
							stats.add( "implicit transfers" );
							break;
						}
					}
					return;
				}
			}

			void commit( PassSpec & p )
			{
				int id = int( passes.size() );
				// conflicts: later passes are ordered after the earlier ones they conflict with
				std::set< int > deps;
				for ( auto & a : p.atts )
				{
					// a depth or stencil attachment touches both aspects
					std::set< int > done;
					for ( auto vi : a.views )
					{
						if ( !done.insert( vi ).second ) continue;
						auto & v = views[vi];
						auto & im = imgs[v.img];
						auto visit = [&]( uint32_t c )
						{
							if ( reads( a.use ) || writes( a.use ) ) deps.insert( im.writersOf[c].begin(), im.writersOf[c].end() );
							if ( writes( a.use ) ) deps.insert( im.readersOf[c].begin(), im.readersOf[c].end() );
						};
						auto note = [&]( uint32_t c )
						{
							if ( writes( a.use ) || ( isRP( a.use ) ) ) im.writersOf[c].insert( id );
							else im.readersOf[c].insert( id );
						};
						auto cells = touched( a, v );
						for ( auto c : cells ) visit( c );
						if ( isRP( a.use ) )
							for ( auto c : cells ) deps.insert( im.readersOf[c].begin(), im.readersOf[c].end() );
						for ( auto c : cells ) note( c );
						if ( p.implicitAtt >= 0 && &p.atts[p.implicitAtt] == &a )
						{
							for ( auto c : v.cells ) im.writersOf[c].insert( id );
							if ( p.implicitSrc >= 0 )
								for ( auto c : views[p.implicitSrc].cells )
								{
									auto & si = imgs[views[p.implicitSrc].img];
									deps.insert( si.writersOf[c].begin(), si.writersOf[c].end() );
									// its layout is changed
									deps.insert( si.readersOf[c].begin(), si.readersOf[c].end() );
									si.writersOf[c].insert( id );
								}
						}
					}
					if ( writes( a.use ) )
					{
						if ( a.views.size() == 1 )
						{
							for ( auto c : views[a.views[0]].cells ) imgs[views[a.views[0]].img].defd[c] = !p.toggles || p.implicitAtt >= 0 ? 1 : imgs[views[a.views[0]].img].defd[c];
						}
						// with several indices, whether a cell was written depends on the frame: leave as is
						if ( a.use == Use::DOut || a.use == Use::DIO || a.use == Use::SOut || a.use == Use::SIO || a.use == Use::DIn || a.use == Use::SIn )
							for ( auto vi : a.views )
							{
								auto & v = views[vi];
								auto & im = imgs[v.img];
								if ( im.A == 2 )
								{
									uint32_t lost = a.use == Use::DOut || a.use == Use::DIO || a.use == Use::DIn ? 1u : 0u;
									for ( auto c : touched( a, v ) )
										if ( c / ( im.L * im.M ) == lost ) im.defd[c] = 0;
								}
							}
					}
				}
				for ( auto & a : p.bufs )
				{
					std::set< int > done;
					for ( auto bi : a.bufs )
					{
						if ( !done.insert( bi ).second ) continue;
						auto & b = bufs[bi];
						for ( auto g = a.off / Granule; g < ( a.off + realSize( a, bi ) ) / Granule; ++g )
						{
							deps.insert( b.writersOf[g].begin(), b.writersOf[g].end() );
							if ( writes( a.use ) ) deps.insert( b.readersOf[g].begin(), b.readersOf[g].end() );
							if ( writes( a.use ) ) { b.writersOf[g].insert( id ); if ( a.bufs.size() == 1 && !p.toggles ) b.defd[g] = 1; }
							else b.readersOf[g].insert( id );
						}
					}
				}
				deps.erase( id );
				// keep those of the same graph, reduce
				std::set< int > same;
				for ( auto d : deps ) if ( passes[d].graph == p.graph ) same.insert( d );
				if ( rng.chance( prof.pMinimalDeps ) )
				{
					auto reach = [&]( int from, int to )
					{
						std::vector< int > st{ from };
						std::set< int > seen;
						while ( !st.empty() )
						{
							auto c = st.back(); st.pop_back();
							if ( c == to ) return true;
							for ( auto d : passes[c].deps ) if ( seen.insert( d ).second ) st.push_back( d );
						}
						return false;
					};
					std::set< int > red;
					for ( auto d : same )
					{
						bool implied = false;
						for ( auto e : same ) if ( e != d && reach( e, d ) ) implied = true;
						if ( !implied ) red.insert( d );
					}
					same = red;
				}
				// some extra edges
				if ( id && rng.chance( 15 ) )
				{
					auto d = int( rng.below( uint32_t( id ) ) );
					if ( passes[d].graph == p.graph ) same.insert( d );
				}
				p.deps = same;
				passes.push_back( std::move( p ) );
				graphs[passes.back().graph].passes.push_back( id );
			}

			// the cells an attachment touches, including the other aspect of combined formats
			std::vector< uint32_t > touched( AttSpec const & a, ViewSpec const & v )const
			{
				auto & im = imgs[v.img];
				std::set< uint32_t > r( v.cells.begin(), v.cells.end() );
				if ( im.A == 2 && isRP( a.use ) )
					for ( auto c : v.cells )
						for ( uint32_t x = 0; x < 2; ++x ) r.insert( c % ( im.L * im.M ) + x * im.L * im.M );
				return { r.begin(), r.end() };
			}

			//---------------------------------------------------------------- building with the real API

			// The next allocations are made in blocks whose addresses are in another order.
			void shakeHeap()
			{
				if ( !variant || !variant->heapNoise ) return;
				std::vector< std::unique_ptr< char[] > > blocks;
				for ( int i = 0; i < 300; ++i ) blocks.emplace_back( new char[16 + noise.below( 24 ) * 16 ] );
				noise.shuffle( blocks );
				for ( int i = 0; i < 20; ++i ) { noiseBlocks.push_back( std::move( blocks.back() ) ); blocks.pop_back(); }
				blocks.clear();
			}

			void buildGraphs()
			{
				if ( !variant || !variant->handler ) handler = std::make_unique< crg::ResourceHandler >();
				auto & shared = handler ? *handler : *variant->handler;
				auto n = rng.range( prof.minGraphs, prof.maxGraphs );
				graphs.resize( n );
				for ( uint32_t g = 0; g < n; ++g )
				{
					graphs[g].graph = std::make_unique< crg::FrameGraph >( shared, "graph" + std::to_string( g ) );
					for ( uint32_t d = 0; d < g; ++d )
						if ( !prof.siblings || rng.chance( 55 ) || ( d + 1 == g && graphs[g].deps.empty() && rng.chance( 80 ) ) ) graphs[g].deps.push_back( int( d ) );
					graphs[g].closure.insert( int( g ) );
					for ( auto d : graphs[g].deps ) graphs[g].closure.insert( graphs[d].closure.begin(), graphs[d].closure.end() );
					if ( rng.chance( 50 ) ) std::reverse( graphs[g].deps.begin(), graphs[g].deps.end() );
				}
				genImages();
				genBuffers();
				for ( auto & im : imgs )
				{
					im.graph = prof.shareAll ? 0 : int( rng.below( n ) );
					im.shared = im.graph + 1 < int( n );
					im.id = graphs[im.graph].graph->createImage( im.data );
				}
			}

			crg::VkPipelineShaderStageCreateInfoArray program( bool compute )
			{
				crg::VkPipelineShaderStageCreateInfoArray r;
				auto add = [&]( VkShaderStageFlagBits st )
				{
					shaders.push_back( drv.makeShader( "shader" ) );
					r.push_back( { VK_STRUCTURE_TYPE_PIPELINE_SHADER_STAGE_CREATE_INFO, nullptr, 0u, st, shaders.back(), "main", nullptr } );
				};
				if ( compute ) add( VK_SHADER_STAGE_COMPUTE_BIT );
				else { add( VK_SHADER_STAGE_VERTEX_BIT ); add( VK_SHADER_STAGE_FRAGMENT_BIT ); }
				return r;
			}

			template< typename Cfg >
			void setPrograms( Cfg & cfg, PassSpec & p, bool compute )
			{
				p.programs.clear();
				if ( p.maxPass > 1 && rng.chance( 50 ) )
				{
					std::vector< crg::VkPipelineShaderStageCreateInfoArray > all;
					for ( uint32_t i = 0; i < p.maxPass; ++i )
					{
						all.push_back( program( compute ) );
						p.programs.push_back( modulesOf( all.back() ) );
					}
					if ( rng.chance( 30 ) )
						cfg.programCreator( crg::ProgramCreator{ p.maxPass, [all]( uint32_t i ){ return all[i]; } } ), p.programsFixed = true;
					else
						cfg.programs( all );
				}
				else
				{
					auto pr = program( compute );
					p.programs.push_back( modulesOf( pr ) );
					cfg.program( pr );
				}
			}

			static std::vector< VkShaderModule > modulesOf( crg::VkPipelineShaderStageCreateInfoArray const & pr )
			{
				std::vector< VkShaderModule > r;
				for ( auto & s : pr ) r.push_back( s.module );
				return r;
			}

			void resetSome()
			{
				for ( auto & p : passes )
				{
					if ( p.programs.empty() || p.programsFixed || !rng.chance( prof.pReset ) ) continue;
					bool compute = p.kind == PK::Compute;
					auto pr = program( compute );
					auto i = rng.below( p.maxPass );
					stats.add( "pipelines reset" );
					LibScope lib;
					if ( compute ) static_cast< crg::ComputePass * >( p.run )->resetPipeline( pr, i );
					else if ( p.kind == PK::Quad ) static_cast< crg::RenderQuad * >( p.run )->resetPipeline( pr, i );
					else static_cast< crg::RenderMesh * >( p.run )->resetPipeline( pr, i );
					auto & slot = p.programs[p.programs.size() == 1 ? 0 : i];
					OutScope outside;
					for ( auto m : slot ) drv.destroyExternal( ( uint64_t )m );
					slot = modulesOf( pr );
				}
			}

			// Records some passes alone, as an application may, without running them.
			void reRecordSome()
			{
				for ( auto & p : passes )
				{
					if ( !p.run || !isResettable( p ) || !rng.chance( prof.pReset / 2 ) ) continue;
					if ( rng.chance( 60 ) ) p.run->resetCommandBuffer( uint32_t( rng.below( p.maxPass ) ) );
					if ( rng.chance( 80 ) )
					{
						uint32_t got;
						{
							LibScope lib;
							got = p.run->reRecordCurrent();
						}
						auto want = p.enabled ? p.index : uint32_t( crg::RunnablePass::InvalidIndex );
						stats.add( "passes recorded alone" );
						if ( got != want ) drv.viol( "index", "re-record", "recording " + passStr( int( &p - passes.data() ) ) + " alone gives index " + std::to_string( got ) + " instead of " + std::to_string( want ) );
					}
				}
			}

			static bool isResettable( PassSpec const & p ){ return p.resettable || p.kind == PK::Quad || p.kind == PK::Mesh || p.kind == PK::Compute; }

			void checkProgram( Exec & e, PassSpec & p, int id, int idx )
			{
				if ( p.programs.empty() ) return;
				auto o = drv.get( e.pipe[p.kind == PK::Compute ? VK_PIPELINE_BIND_POINT_COMPUTE : VK_PIPELINE_BIND_POINT_GRAPHICS], T::Pipeline );
				auto & want = p.programs[p.programs.size() == 1 ? 0 : size_t( idx )];
				stats.add( "bound programs checked" );
				if ( !o || o->pipe.modules != want )
					drv.viol( "program", o ? "wrong-program" : "no-pipeline", "pass " + passStr( id ) + " index " + std::to_string( idx ) + ( o ? " runs with another program than its current one" : " runs without pipeline" ) );
			}

			crg::ru::Config ruConfig( int id )
			{
				auto & p = passes[id];
				crg::ru::Config c;
				c.maxPassCount = p.maxPass;
				c.resettable = isResettable( p );
				c.prePassAction( [this, id]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ spend( id ); drv.marker( cb, M_Pre, id, int( i ) ); } );
				c.postPassAction( [this, id]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ spend( id ); drv.marker( cb, M_Post, id, int( i ) ); } );
				if ( p.implicitAtt >= 0 )
				{
					auto v = p.atts[p.implicitAtt].views[0];
					crg::RecordContext::ImplicitAction inner;
					if ( p.implicitKind == 0 )
						inner = crg::RecordContext::clearAttachment( views[v].id, p.implicitClear, p.implicitFinal );
					else
					{
						auto ext = [&]( int x ){ auto e = mipExt( imgs[views[x].img], views[x].range.baseMipLevel ); return VkExtent2D{ e.width, e.height }; };
						if ( p.implicitKind == 1 ) inner = crg::RecordContext::copyImage( views[p.implicitSrc].id, views[v].id, ext( v ), p.implicitFinal );
						else inner = crg::RecordContext::blitImage( views[p.implicitSrc].id, views[v].id, {}, ext( p.implicitSrc ), {}, ext( v ), p.implicitFilter, p.implicitFinal );
					}
					c.implicitAction( views[v].id, [this, id, v, inner]( crg::RecordContext & rc, VkCommandBuffer cb, uint32_t i )
					{
						drv.marker( cb, M_ImpBegin, id, int( i ), v );
						inner( rc, cb, i );
						drv.marker( cb, M_ImpEnd, id, int( i ), v );
					} );
				}
				return c;
			}

			//---------------------------------------------------------------- draw parameters

			crg::VkBufferArray perIndex( PassSpec & p, char const * name )
			{
				crg::VkBufferArray r;
				auto n = p.maxPass > 1 && rng.chance( 60 ) ? p.maxPass : 1u;
				for ( uint32_t i = 0; i < n; ++i ) r.push_back( drv.makeBuffer( 4096, p.name + name + std::to_string( i ) ) );
				return r;
			}

			static crg::Buffer toBuffer( crg::VkBufferArray const & b, std::string name )
			{
				return b.size() == 1 ? crg::Buffer{ b[0], std::move( name ) } : crg::Buffer{ b, std::move( name ) };
			}

			void genDraw( int id, VkExtent2D e )
			{
				auto & p = passes[id];
				auto & d = p.draw;
				d = DrawSpec{};
				d.size = e;
				if ( p.kind == PK::Mesh ) d.vb = { meshVB };
				if ( !prof.pDraw || !rng.chance( prof.pDraw ) ) return;
				d.on = true;
				d.end = rng.chance( 60 );
				changeDraw( d );
				if ( p.kind == PK::Quad ) d.inst = rng.range( 1, 5 );
				for ( auto & x : d.cb ) x = rng.chance( 40 );
				if ( rng.chance( 35 ) )
				{
					d.ind = perIndex( p, "ind" );
					d.indOff = 4u * rng.below( 64 );
					d.indStride = 20u + 4u * rng.below( 4 );
				}
				for ( auto n = rng.chance( 40 ) ? rng.range( 1, 3 ) : 0u; n; --n ) d.layouts.push_back( drv.makeSetLayout() );
				for ( uint32_t n = rng.chance( 40 ) ? p.kind == PK::Compute ? 1u : rng.range( 1, 2 ) : 0u, off = 0; n; --n, off += 16 )
					d.push.push_back( { VkShaderStageFlags( p.kind == PK::Compute ? VK_SHADER_STAGE_COMPUTE_BIT : n == 1 ? VK_SHADER_STAGE_VERTEX_BIT : VK_SHADER_STAGE_FRAGMENT_BIT ), off, 4u * rng.range( 1, 4 ) } );
				if ( p.kind == PK::Compute ) return;
				if ( rng.chance( 60 ) )
				{
					d.pos = { int32_t( rng.below( e.width ) ), int32_t( rng.below( e.height ) ) };
					d.size = { rng.range( 1, e.width - uint32_t( d.pos.x ) ), rng.range( 1, e.height - uint32_t( d.pos.y ) ) };
				}
				if ( rng.chance( 50 ) )
				{
					auto st = [this]{ return VkStencilOpState{ VkStencilOp( rng.below( 8 ) ), VkStencilOp( rng.below( 8 ) ), VkStencilOp( rng.below( 8 ) ), VkCompareOp( rng.below( 8 ) ), rng.below( 256 ), rng.below( 256 ), rng.below( 256 ) }; };
					d.ds = { VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO, nullptr, 0u, rng.below( 2 ), rng.below( 2 ), VkCompareOp( rng.below( 8 ) ), VK_FALSE, rng.below( 2 ), st(), st(), 0.0f, 1.0f };
				}
				if ( p.kind == PK::Quad )
				{
					d.texcoord = rng.chance( 60 );
					if ( d.texcoord ) d.invU = rng.chance( 40 ), d.invV = rng.chance( 40 );
					return;
				}
				d.cull = VkCullModeFlags( rng.below( 4 ) );
				if ( rng.chance( 15 ) ) d.vb.clear();
				else d.vb = perIndex( p, "vb" );
				if ( rng.chance( 50 ) ) d.ib = perIndex( p, "ib" );
				if ( !d.vb.empty() && rng.chance( 70 ) )
				{
					d.bindings.push_back( { 0u, 4u * rng.range( 3, 12 ), VkVertexInputRate( rng.below( 2 ) ) } );
					for ( uint32_t n = rng.range( 1, 3 ), i = 0; i < n; ++i )
						d.attribs.push_back( { i, 0u, VK_FORMAT_R32_SFLOAT, 4u * i } );
				}
			}

			// What the callbacks return can change from a frame to the next one
			void changeDraw( DrawSpec & d )
			{
				d.prim = rng.range( 1, 3000 );
				d.vert = rng.range( 1, 3000 );
				d.it = rng.chance( 50 ) ? VK_INDEX_TYPE_UINT16 : VK_INDEX_TYPE_UINT32;
				for ( auto & g : d.grp ) g = rng.range( 1, 500 );
			}

			void changeDraws()
			{
				for ( auto & p : passes )
				{
					auto & d = p.draw;
					if ( !d.on || !rng.chance( 60 ) ) continue;
					auto old = d;
					changeDraw( d );
					if ( p.kind != PK::Compute ) continue;
					for ( int k = 0; k < 3; ++k ) if ( !d.cb[k] ) d.grp[k] = old.grp[k];
				}
			}

			crg::RunnablePass::RecordCallback endCallback( int id )
			{
				return crg::RunnablePass::RecordCallback( [this, id]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i ){ drv.marker( cb, M_End, id, int( i ) ); } );
			}

			void configure( crg::rq::Config & cfg, int id )
			{
				auto & d = passes[id].draw;
				cfg.renderSize( d.size );
				if ( !d.on )
				{
					cfg.instances( 1u );
					if ( ( d.texcoord = rng.chance( 50 ) ) ) cfg.texcoordConfig( crg::Texcoord{} );
					return;
				}
				if ( d.inst != 1 || rng.chance( 50 ) ) cfg.instances( d.inst );
				if ( d.pos.x || d.pos.y || rng.chance( 50 ) ) cfg.renderPosition( d.pos );
				if ( d.ds.depthTestEnable || d.ds.depthWriteEnable || d.ds.stencilTestEnable ) cfg.depthStencilState( d.ds );
				else d.ds = VkPipelineDepthStencilStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
				if ( d.texcoord ) cfg.texcoordConfig( crg::Texcoord{ d.invU, d.invV } );
				if ( !d.ind.empty() ) cfg.indirectBuffer( crg::IndirectBuffer{ toBuffer( d.ind, "ind" ), d.indStride, d.indOff } );
				if ( d.layouts.size() == 1 && rng.chance( 50 ) ) cfg.layout( d.layouts[0] );
				else if ( !d.layouts.empty() ) cfg.layouts( d.layouts );
				if ( !d.push.empty() ) cfg.m_baseConfig.pushConstants( d.push );
				if ( d.end ) cfg.end( endCallback( id ) );
			}

			void configure( crg::rm::Config & cfg, int id )
			{
				auto & d = passes[id].draw;
				cfg.renderSize( d.size );
				if ( !d.vb.empty() ) cfg.vertexBuffer( crg::VertexBuffer{ toBuffer( d.vb, "vb" ), {}, d.attribs, d.bindings } );
				cfg.getPrimitiveCount( crg::GetPrimitiveCountCallback( [this, id]{ return passes[id].draw.prim; } ) )
					.getVertexCount( crg::GetVertexCountCallback( [this, id]{ return passes[id].draw.vert; } ) );
				if ( !d.on ) return;
				if ( d.pos.x || d.pos.y || rng.chance( 50 ) ) cfg.renderPosition( d.pos );
				if ( d.ds.depthTestEnable || d.ds.depthWriteEnable || d.ds.stencilTestEnable ) cfg.depthStencilState( d.ds );
				else d.ds = VkPipelineDepthStencilStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
				cfg.getIndexType( crg::GetIndexTypeCallback( [this, id]{ return passes[id].draw.it; } ) );
				if ( d.cull != VK_CULL_MODE_NONE ) cfg.getCullMode( crg::GetCullModeCallback( [this, id]{ return passes[id].draw.cull; } ) );
				if ( !d.ib.empty() ) cfg.indexBuffer( crg::IndexBuffer{ toBuffer( d.ib, "ib" ) } );
				if ( !d.ind.empty() ) cfg.indirectBuffer( crg::IndirectBuffer{ toBuffer( d.ind, "ind" ), d.indStride, d.indOff } );
				if ( d.layouts.size() == 1 && rng.chance( 50 ) ) cfg.layout( d.layouts[0] );
				else if ( !d.layouts.empty() ) cfg.layouts( d.layouts );
				if ( !d.push.empty() ) cfg.m_baseConfig.pushConstants( d.push );
				if ( d.end ) cfg.end( endCallback( id ) );
			}

			void configure( crg::cp::Config & cfg, int id )
			{
				auto & d = passes[id].draw;
				if ( !d.on ) return;
				if ( d.cb[0] ) cfg.getGroupCountX( crg::cp::GetGroupCountCallback( [this, id]{ return passes[id].draw.grp[0]; } ) );
				if ( !d.cb[0] || rng.chance( 50 ) ) cfg.groupCountX( d.cb[0] ? 7u : d.grp[0] );
				if ( d.cb[1] ) cfg.getGroupCountY( crg::cp::GetGroupCountCallback( [this, id]{ return passes[id].draw.grp[1]; } ) );
				if ( !d.cb[1] || rng.chance( 50 ) ) cfg.groupCountY( d.cb[1] ? 8u : d.grp[1] );
				if ( d.cb[2] ) cfg.getGroupCountZ( crg::cp::GetGroupCountCallback( [this, id]{ return passes[id].draw.grp[2]; } ) );
				if ( !d.cb[2] || rng.chance( 50 ) ) cfg.groupCountZ( d.cb[2] ? 9u : d.grp[2] );
				if ( !d.ind.empty() ) cfg.indirectBuffer( crg::IndirectBuffer{ toBuffer( d.ind, "ind" ), d.indStride, d.indOff } );
				if ( d.layouts.size() == 1 && rng.chance( 50 ) ) cfg.layout( d.layouts[0] );
				else if ( !d.layouts.empty() ) cfg.layouts( d.layouts );
				if ( d.push.size() == 1 ) cfg.pushConstants( d.push[0] );
				else if ( !d.push.empty() ) cfg.pushConstants( d.push );
				if ( d.end ) cfg.end( endCallback( id ) );
			}

			// monitor: what is drawn or dispatched between the callbacks of a pass
			int drawPass{ -1 }, drawCount{};
			bool drawEnded{};

			static bool isShader( PassSpec const & p ) { return p.kind == PK::Quad || p.kind == PK::Mesh || p.kind == PK::Compute; }

			void drawMarker( Exec & e, Cmd const & c )
			{
				int id = c.mpass;
				auto & p = passes[id];
				auto bad = [&]( char const * sig, std::string const & msg ){ drv.viol( "draw", sig, "pass " + passStr( id ) + ": " + msg ); };
				switch ( c.mkind )
				{
				case M_Pre:
					drawPass = id; drawCount = 0; drawEnded = false;
					break;
				case M_Rec:
					if ( drawCount ) bad( "before-callback", "it draws before its recording callback" );
					break;
				case M_End:
					if ( drawPass != id || drawEnded || !drawCount ) bad( "end-callback", "its end callback is called at another time than once after it drew" );
					if ( e.inRP ) bad( "end-callback-in-rp", "its end callback is called inside the render pass" );
					drawEnded = true;
					break;
				case M_Post:
					if ( isShader( p ) )
					{
						if ( drawCount != 1 ) bad( "count", "it draws or dispatches " + std::to_string( drawCount ) + " times" );
						if ( p.draw.end && !drawEnded ) bad( "no-end-callback", "its end callback was not called" );
						stats.add( "draws and dispatches checked" );
					}
					drawPass = -1;
					break;
				default:
					break;
				}
			}

			static bool same( VkStencilOpState const & a, VkStencilOpState const & b )
			{
				return a.failOp == b.failOp && a.passOp == b.passOp && a.depthFailOp == b.depthFailOp && a.compareOp == b.compareOp
					&& a.compareMask == b.compareMask && a.writeMask == b.writeMask && a.reference == b.reference;
			}

			void onDraw( Exec & e, Cmd const & c )
			{
				bool dispatch = c.op == Op::Dispatch || c.op == Op::DispatchIndirect;
				bool draw = c.op == Op::Draw || c.op == Op::DrawIndexed || c.op == Op::DrawIndirect || c.op == Op::DrawIndexedIndirect;
				if ( !dispatch && !draw ) return;
				int id = drawPass;
				if ( id < 0 ) { drv.viol( "draw", "outside", std::string( opName( c.op ) ) + " outside of any pass" ); return; }
				auto & p = passes[id];
				auto & d = p.draw;
				auto idx = p.index;
				auto bad = [&]( char const * sig, std::string const & msg ){ drv.viol( "draw", sig, "pass " + passStr( id ) + ", index " + std::to_string( idx ) + ": " + msg ); };
				++drawCount;
				if ( !isShader( p ) ) { bad( "kind", std::string( opName( c.op ) ) + " from a pass which draws nothing" ); return; }
				if ( dispatch != ( p.kind == PK::Compute ) ) { bad( "kind", std::string( opName( c.op ) ) + " from a pass of another kind" ); return; }
				auto at = [&]( crg::VkBufferArray const & b ){ return b.empty() ? uint64_t{} : uint64_t( b[b.size() == 1 ? 0 : idx] ); };
				auto wantOp = dispatch ? ( d.ind.empty() ? Op::Dispatch : Op::DispatchIndirect )
					: d.ind.empty() ? ( d.ib.empty() ? Op::Draw : Op::DrawIndexed ) : ( d.ib.empty() ? Op::DrawIndirect : Op::DrawIndexedIndirect );
				if ( c.op != wantOp ) { bad( "command", std::string( opName( c.op ) ) + " instead of " + opName( wantOp ) ); return; }
				auto nums = [&]( std::vector< uint32_t > const & want )
				{
					if ( c.n == want ) return;
					std::string s;
					for ( auto x : c.n ) s += " " + std::to_string( x );
					s += " instead of";
					for ( auto x : want ) s += " " + std::to_string( x );
					bad( "parameters", std::string( opName( c.op ) ) + s );
				};
				if ( !d.ind.empty() )
				{
					if ( c.a != at( d.ind ) ) bad( "indirect-buffer", "the indirect buffer is not the one of the index" );
					if ( c.offs.empty() || c.offs[0] != d.indOff ) bad( "indirect-offset", "wrong offset in the indirect buffer" );
					if ( draw ) nums( { 1u, d.indStride } );
				}
				else if ( dispatch ) nums( { d.grp[0], d.grp[1], d.grp[2] } );
				else if ( p.kind == PK::Quad ) nums( { 3u, d.inst, 0u, 0u } );
				else if ( d.ib.empty() ) nums( { d.vert, 1u, 0u, 0u } );
				else nums( { d.prim, 1u, 0u, 0u, 0u } );
				if ( draw && !d.ib.empty() && ( e.ib != at( d.ib ) || e.ibOff || e.ibType != uint32_t( d.it ) ) )
					bad( "index-buffer", "the index buffer, its offset or type is not the one of the index" );
				auto po = drv.get( e.pipe[dispatch ? 1 : 0], T::Pipeline );
				if ( !po ) return;
				auto & pi = po->pipe;
				// layout
				if ( auto lo = drv.get( uint64_t( pi.layout ), T::PipelineLayout ) )
				{
					bool ok = lo->setLayouts.size() == d.layouts.size() + 1;
					for ( size_t k = 0; ok && k < d.layouts.size(); ++k ) ok = lo->setLayouts[k + 1] == d.layouts[k];
					if ( !ok ) bad( "layout-sets", "the pipeline layout does not have the set of the pass followed by the configured ones" );
					ok = lo->pushRanges.size() == d.push.size();
					for ( size_t k = 0; ok && k < d.push.size(); ++k ) ok = lo->pushRanges[k].stageFlags == d.push[k].stageFlags && lo->pushRanges[k].offset == d.push[k].offset && lo->pushRanges[k].size == d.push[k].size;
					if ( !ok ) bad( "layout-push", "the pipeline layout does not have the configured push constants" );
				}
				if ( dispatch ) return;
				if ( pi.viewports.size() != 1 || pi.viewports[0].x != float( d.pos.x ) || pi.viewports[0].y != float( d.pos.y ) || pi.viewports[0].width != float( d.size.width ) || pi.viewports[0].height != float( d.size.height )
					|| pi.viewports[0].minDepth != 0.0f || pi.viewports[0].maxDepth != 1.0f )
					bad( "viewport", "the viewport is not the configured position and size" );
				if ( pi.scissors.size() != 1 || pi.scissors[0].offset.x != d.pos.x || pi.scissors[0].offset.y != d.pos.y || pi.scissors[0].extent.width != d.size.width || pi.scissors[0].extent.height != d.size.height )
					bad( "scissor", "the scissor is not the configured position and size" );
				if ( pi.topology != ( p.kind == PK::Quad ? VK_PRIMITIVE_TOPOLOGY_TRIANGLE_STRIP : VK_PRIMITIVE_TOPOLOGY_TRIANGLE_LIST ) ) bad( "topology", "wrong primitive topology" );
				if ( pi.cull != d.cull ) bad( "cull", "the cull mode is not the configured one" );
				if ( !pi.hasDS || pi.ds.depthTestEnable != d.ds.depthTestEnable || pi.ds.depthWriteEnable != d.ds.depthWriteEnable || pi.ds.depthCompareOp != d.ds.depthCompareOp || pi.ds.stencilTestEnable != d.ds.stencilTestEnable
					|| !same( pi.ds.front, d.ds.front ) || !same( pi.ds.back, d.ds.back ) )
					bad( "depth-stencil", "the depth stencil state is not the configured one" );
				std::vector< VkPipelineColorBlendAttachmentState > blends;
				for ( auto & a : p.atts )
					if ( a.use == Use::CIn || a.use == Use::CIO || a.use == Use::COut ) blends.push_back( a.blend );
				bool ok = blends.size() == pi.blends.size();
				for ( size_t k = 0; ok && k < blends.size(); ++k ) ok = memcmp( &blends[k], &pi.blends[k], sizeof( blends[k] ) ) == 0;
				if ( !ok ) bad( "blend", "the blend states are not the ones of the colour attachments" );
				stats.add( "pipeline states checked" );
				// vertices
				if ( p.kind == PK::Quad ) checkQuad( e, pi, d, bad );
				else
				{
					if ( !d.vb.empty() && ( e.vbs.empty() || e.vbs[0] != at( d.vb ) || e.vbOffs[0] ) ) bad( "vertex-buffer", "the bound vertex buffer is not the one of the index" );
					ok = pi.viBindings.size() == d.bindings.size() && pi.viAttribs.size() == d.attribs.size();
					for ( size_t k = 0; ok && k < d.bindings.size(); ++k ) ok = memcmp( &d.bindings[k], &pi.viBindings[k], sizeof( d.bindings[k] ) ) == 0;
					for ( size_t k = 0; ok && k < d.attribs.size(); ++k ) ok = memcmp( &d.attribs[k], &pi.viAttribs[k], sizeof( d.attribs[k] ) ) == 0;
					if ( !ok ) bad( "vertex-input", "the vertex input state is not the one of the vertex buffer" );
				}
			}

			template< typename Bad >
			void checkQuad( Exec & e, PipeInfo const & pi, DrawSpec const & d, Bad bad )
			{
				auto vb = e.vbs.empty() ? nullptr : drv.get( e.vbs[0], T::Buffer );
				if ( !vb || vb->external || e.vbOffs[0] ) { bad( "quad-buffer", "no quad vertex buffer is bound" ); return; }
				if ( pi.viBindings.size() != 1 || pi.viBindings[0].binding || pi.viBindings[0].inputRate != VK_VERTEX_INPUT_RATE_VERTEX ) { bad( "quad-binding", "wrong vertex bindings" ); return; }
				auto attr = [&]( uint32_t loc ) -> VkVertexInputAttributeDescription const *
				{
					for ( auto & a : pi.viAttribs ) if ( a.location == loc && !a.binding && a.format == VK_FORMAT_R32G32_SFLOAT ) return &a;
					return nullptr;
				};
				if ( pi.viAttribs.size() != ( d.texcoord ? 2u : 1u ) || !attr( 0 ) || ( d.texcoord && !attr( 1 ) ) ) { bad( "quad-attributes", "wrong vertex attributes" ); return; }
				auto stride = pi.viBindings[0].stride;
				float v[3][4]{};
				for ( uint32_t i = 0; i < 3; ++i )
					for ( uint32_t k = 0; k < ( d.texcoord ? 2u : 1u ); ++k )
					{
						auto off = i * stride + attr( k )->offset;
						if ( off + 8 > vb->bytes.size() ) { bad( "quad-size", "the quad vertex buffer is too small" ); return; }
						memcpy( &v[i][k * 2], vb->bytes.data() + off, 8 );
					}
				// barycentric coordinates of the corners of the render area: all inside, with the expected texture coordinates
				double const x0 = v[0][0], y0 = v[0][1], x1 = v[1][0], y1 = v[1][1], x2 = v[2][0], y2 = v[2][1];
				double det = ( y1 - y2 ) * ( x0 - x2 ) + ( x2 - x1 ) * ( y0 - y2 );
				if ( std::abs( det ) < 1e-6 ) { bad( "quad-shape", "the quad's triangle is flat" ); return; }
				for ( int k = 0; k < 4; ++k )
				{
					double x = k & 1 ? 1.0 : -1.0, y = k & 2 ? 1.0 : -1.0;
					double a = ( ( y1 - y2 ) * ( x - x2 ) + ( x2 - x1 ) * ( y - y2 ) ) / det;
					double b = ( ( y2 - y0 ) * ( x - x2 ) + ( x0 - x2 ) * ( y - y2 ) ) / det;
					double g = 1.0 - a - b;
					if ( a < -1e-6 || b < -1e-6 || g < -1e-6 ) { bad( "quad-shape", "the quad does not cover the render area" ); return; }
					if ( !d.texcoord ) continue;
					double u = a * v[0][2] + b * v[1][2] + g * v[2][2], w = a * v[0][3] + b * v[1][3] + g * v[2][3];
					double wu = ( ( k & 1 ) != 0 ) != d.invU ? 1.0 : 0.0, ww = ( ( k & 2 ) != 0 ) != d.invV ? 1.0 : 0.0;
					if ( std::abs( u - wu ) > 1e-5 || std::abs( w - ww ) > 1e-5 )
					{
						bad( "quad-texcoord", "texture coordinates (" + std::to_string( u ) + ", " + std::to_string( w ) + ") instead of (" + std::to_string( wu ) + ", " + std::to_string( ww ) + ") at a corner of the render area" );
						return;
					}
				}
				stats.add( "quads checked" );
			}

			crg::RunnablePassPtr makeRunnable( int id, crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg )
			{
				auto & p = passes[id];
				p.createdAt = int( graphs[p.graph].order.size() );
				graphs[p.graph].order.push_back( id );
				crg::FramePassTimer * own{};
				if ( p.kind == PK::Raw && prof.pTimers && rng.chance( 25 ) )
				{
					auto & t = ownTimers[id];
					t = std::make_unique< crg::FramePassTimer >( c, "own" + p.name, crg::TimerScope::eUpdate );
					own = t.get();
					ownConnections.push_back( own->onDestroy.connect( [this, own, id]( crg::FramePassTimer & x )
					{
						if ( &x != own || ++ownDestroyed[id] != 1 ) drv.viol( "time", "on-destroy", "the destruction of a timer is notified for another one, or twice" );
					} ) );
				}
				auto rec = [this, id, own]( crg::RecordContext &, VkCommandBuffer cb, uint32_t i )
				{
					OutScope outside;
					spend( id );
					if ( ( passes[id].kind == PK::Raw || passes[id].kind == PK::RenderPass || passes[id].kind == PK::Compute )
						&& !std::count( passes[id].initialised.begin(), passes[id].initialised.end(), i ) )
						drv.viol( "index", "not-initialised", "pass " + passStr( id ) + " is recorded with index " + std::to_string( i ) + " which was not initialised" );
					drv.marker( cb, M_Rec, id, int( i ) );
					if ( own )
					{
						auto block( own->start() );
						own->beginPass( cb );
						own->endPass( cb );
						if ( inRun ) own->notifyPassRender( i );
						auto d = 1 + i;
						g_clockOffset += d;
						ownCpu[id] += d;
						passCpu[id] += d;
						if ( inRun ) graphCpu[passes[id].graph] += d;
					}
				};
				auto init = [this, id]( uint32_t i )
				{
					OutScope outside;
					auto & p = passes[id];
					if ( p.kind == PK::Raw && std::count( p.initialised.begin(), p.initialised.end(), i ) )
						drv.viol( "index", "initialised-twice", "pass " + passStr( id ) + " index " + std::to_string( i ) + " is initialised twice" );
					if ( i != p.index )
						drv.viol( "index", "initialised-index", "pass " + passStr( id ) + " is initialised for index " + std::to_string( i ) + " while its index is " + std::to_string( p.index ) );
					p.initialised.push_back( i );
					stats.add( "initialise callbacks" );
				};
				auto getIdx = crg::RunnablePass::GetPassIndexCallback( [this, id]{ return passes[id].index; } );
				auto isEn = crg::RunnablePass::IsEnabledCallback( [this, id]{ return passes[id].enabled; } );
				crg::RunnablePassPtr r;
				switch ( p.kind )
				{
				case PK::Raw:
					{
						VkPipelineStageFlags st = p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
						r = std::make_unique< crg::RunnablePass >( fp, c, rg
							, crg::RunnablePass::Callbacks{ init
								, crg::RunnablePass::GetPipelineStateCallback( [st]{ return crg::getPipelineState( st ); } )
								, rec, getIdx, isEn
								, crg::RunnablePass::IsComputePassCallback( [this, id]{ return passes[id].compute; } ) }
							, ruConfig( id ) );
						break;
					}
				case PK::RenderPass:
					r = std::make_unique< crg::RenderPass >( fp, c, rg
						, crg::RenderPass::Callbacks{ init, rec
							, crg::RenderPass::GetSubpassContentsCallback( []{ return VK_SUBPASS_CONTENTS_INLINE; } ), getIdx, isEn }
						, VkExtent2D{}, ruConfig( id ) );
					break;
				case PK::Quad:
					{
						auto & v = views[p.atts[0].views[0]];
						auto e = mipExt( imgs[v.img], v.range.baseMipLevel );
						crg::rq::Config cfg;
						setPrograms( cfg, p, false );
						genDraw( id, { e.width, e.height } );
						cfg.passIndex( &p.index ).recordInto( rec );
						if ( rng.chance( 50 ) ) cfg.enabled( &p.enabled );
						else cfg.isEnabled( isEn );
						configure( cfg, id );
						r = std::make_unique< crg::RenderQuad >( fp, c, rg, ruConfig( id ), cfg );
						break;
					}
				case PK::Mesh:
					{
						auto & v = views[p.atts[0].views[0]];
						auto e = mipExt( imgs[v.img], v.range.baseMipLevel );
						crg::rm::Config cfg;
						setPrograms( cfg, p, false );
						genDraw( id, { e.width, e.height } );
						cfg.getPassIndex( getIdx ).isEnabled( isEn ).recordInto( rec );
						configure( cfg, id );
						r = std::make_unique< crg::RenderMesh >( fp, c, rg, ruConfig( id ), std::move( cfg ) );
						break;
					}
				case PK::Compute:
					{
						crg::cp::Config cfg;
						setPrograms( cfg, p, true );
						genDraw( id, {} );
						cfg.recordInto( rec ).initialise( init ).getPassIndex( getIdx );
						if ( prof.pDraw && rng.chance( 50 ) ) cfg.enabled( &p.enabled );
						else cfg.isEnabled( isEn );
						configure( cfg, id );
						r = std::make_unique< crg::ComputePass >( fp, c, rg, ruConfig( id ), cfg );
						break;
					}
				case PK::Copy:
					r = std::make_unique< crg::ImageCopy >( fp, c, rg, p.ext, p.finalLayout, ruConfig( id ), getIdx, isEn );
					break;
				case PK::Blit:
					r = std::make_unique< crg::ImageBlit >( fp, c, rg, p.so, p.se, p.dof, p.de, p.filter, ruConfig( id ), getIdx, isEn );
					break;
				case PK::BufCopy:
					r = std::make_unique< crg::BufferCopy >( fp, c, rg, p.copyOff, p.copySize, ruConfig( id ), getIdx, isEn );
					break;
				case PK::B2I:
					r = std::make_unique< crg::BufferToImageCopy >( fp, c, rg, VkOffset3D{}, p.ext, ruConfig( id ), getIdx, isEn );
					break;
				case PK::I2B:
					r = std::make_unique< crg::ImageToBufferCopy >( fp, c, rg, VkOffset3D{}, p.ext, ruConfig( id ), getIdx, isEn );
					break;
				case PK::Mips:
					r = std::make_unique< crg::GenerateMipmaps >( fp, c, rg, VK_IMAGE_LAYOUT_UNDEFINED, ruConfig( id ), getIdx, isEn );
					break;
				}
				p.run = r.get();
				return r;
			}

			VkBuffer meshVB{};

			crg::ImageViewIdArray ids( AttSpec const & a )const
			{
				crg::ImageViewIdArray r;
				for ( auto v : a.views ) r.push_back( views[v].id );
				return r;
			}

			void mergeViews( PassSpec & p )
			{
				for ( auto & a : p.atts )
					for ( auto vi : a.views )
					{
						auto & v = views[vi];
						if ( v.id.data || v.merged.empty() ) continue;
						crg::ImageViewIdArray src;
						for ( auto x : v.merged ) src.push_back( views[x].id );
						v.id = p.pass->mergeViews( src );
						// A view belongs to the first of the graphs using it, as the others are destroyed before it.
						int first = p.graph;
						for ( auto & q : passes )
							for ( auto & qa : q.atts )
								if ( std::find( qa.views.begin(), qa.views.end(), vi ) != qa.views.end() ) first = std::min( first, q.graph );
						if ( first != p.graph ) graphs[first].graph->createView( *v.id.data );
						if ( v.id.data->info.viewType != v.type || memcmp( &v.id.data->info.subresourceRange, &v.range, sizeof v.range ) )
							drv.viol( "merge", "range", "the view merged by pass " + p.name + " does not cover what the views it is made of cover" );
					}
			}

			void declare( int id )
			{
				auto & p = passes[id];
				auto & fp = *p.pass;
				for ( auto & a : p.atts )
				{
					auto v = ids( a );
					switch ( a.use )
					{
					case Use::Sampled: fp.addSampledView( v, a.binding, a.sampler ); break;
					case Use::StIn: fp.addInputStorageView( v, a.binding ); break;
					case Use::StOut: fp.addOutputStorageView( v, a.binding ); break;
					case Use::StClr: fp.addClearableOutputStorageView( v, a.binding ); break;
					case Use::StIO: fp.addInOutStorageView( v, a.binding ); break;
					case Use::TrIn: fp.addTransferInputView( v ); break;
					case Use::TrOut: fp.addTransferOutputView( v ); break;
					case Use::TrIO: fp.addTransferInOutView( v ); break;
					case Use::Impl:
						{
							auto & im = imgs[views[a.views[0]].img];
							if ( !im.ds ) fp.addImplicitColourView( v, a.wanted );
							else if ( im.hasD && im.hasS ) fp.addImplicitDepthStencilView( v, a.wanted );
							else fp.addImplicitDepthView( v, a.wanted );
							break;
						}
					case Use::CIn: fp.addInputColourView( v ); break;
					case Use::CIO: fp.addInOutColourView( v, a.blend ); break;
					case Use::COut: fp.addOutputColourView( v, a.clear ); break;
					case Use::DIn: fp.addInputDepthView( v ); break;
					case Use::DIO: fp.addInOutDepthView( v ); break;
					case Use::DOut: fp.addOutputDepthView( v, a.clear ); break;
					case Use::DSIn: fp.addInputDepthStencilView( v ); break;
					case Use::DSIO: fp.addInOutDepthStencilView( v ); break;
					case Use::DSOut: fp.addOutputDepthStencilView( v, a.clear ); break;
					case Use::SIn: fp.addInputStencilView( v ); break;
					case Use::SIO: fp.addInOutStencilView( v ); break;
					case Use::SOut: fp.addOutputStencilView( v, a.clear ); break;
					}
				}
				for ( auto & a : p.bufs )
				{
					std::vector< VkBuffer > hs;
					std::string nm;
					for ( auto b : a.bufs ) { hs.push_back( bufs[b].h ); nm += bufs[b].name; }
					crg::Buffer buf = hs.size() == 1 ? crg::Buffer{ hs[0], nm } : crg::Buffer{ hs, nm };
					auto view = bufs[a.bufs[0]].view;
					switch ( a.use )
					{
					case BUse::Uniform: fp.addUniformBuffer( buf, a.binding, a.off, a.size ); break;
					case BUse::StIn: fp.addInputStorageBuffer( buf, a.binding, a.off, a.size ); break;
					case BUse::StOut: fp.addOutputStorageBuffer( buf, a.binding, a.off, a.size ); break;
					case BUse::StClr: fp.addClearableOutputStorageBuffer( buf, a.binding, a.off, a.size ); break;
					case BUse::StIO: fp.addInOutStorageBuffer( buf, a.binding, a.off, a.size ); break;
					case BUse::TrIn: fp.addTransferInputBuffer( buf, a.off, a.size ); break;
					case BUse::TrOut: fp.addTransferOutputBuffer( buf, a.off, a.size ); break;
					case BUse::TrIO: fp.addTransferInOutBuffer( buf, a.off, a.size ); break;
					case BUse::Impl: fp.addImplicitBuffer( buf, a.off, a.size, a.wanted ); break;
					case BUse::UniformV: fp.addUniformBufferView( buf, view, a.binding, a.off, a.size ); break;
					case BUse::StInV: fp.addInputStorageBufferView( buf, view, a.binding, a.off, a.size ); break;
					case BUse::StOutV: fp.addOutputStorageBufferView( buf, view, a.binding, a.off, a.size ); break;
					case BUse::StClrV: fp.addClearableOutputStorageBufferView( buf, view, a.binding, a.off, a.size ); break;
					case BUse::StIOV: fp.addInOutStorageBufferView( buf, view, a.binding, a.off, a.size ); break;
					}
				}
			}

			void buildPasses()
			{
				shakeHeap();
				auto n = rng.range( prof.minPass, prof.maxPass );
				passes.reserve( n );
				for ( uint32_t i = 0; i < n; ++i ) genPass( int( i ) );
				// creation in another order than the program's
				std::vector< int > order;
				for ( size_t i = 0; i < passes.size(); ++i ) order.push_back( int( i ) );
				if ( rng.chance( 80 ) ) rng.shuffle( order );
				for ( auto id : order )
				{
					auto & p = passes[id];
					auto & g = graphs[p.graph];
					auto creator = [this, id]( crg::FramePass const & fp, crg::GraphContext & c, crg::RunnableGraph & rg ){ return makeRunnable( id, fp, c, rg ); };
					auto k = rng.below( 3 );
					if ( k == 0 ) p.pass = &g.graph->createPass( p.name, creator );
					else
					{
						if ( g.groups.empty() || rng.chance( 30 ) )
						{
							auto gn = "grp" + std::to_string( rng.below( 4 ) );
							auto & base = g.groups.empty() || rng.chance( 50 ) ? g.graph->createPassGroup( gn ) : g.groups[rng.below( uint32_t( g.groups.size() ) )]->createPassGroup( gn );
							g.groups.push_back( &base );
						}
						p.pass = &rng.pick( g.groups )->createPass( p.name, creator );
					}
				}
				for ( auto id : order ) { mergeViews( passes[id] ); declare( id ); }
				for ( auto id : order )
				{
					std::vector< int > ds( passes[id].deps.begin(), passes[id].deps.end() );
					rng.shuffle( ds );
					for ( auto d : ds ) passes[id].pass->addDependency( *passes[d].pass );
				}
				for ( auto & p : passes )
				{
					if ( p.toggles ) p.enabled = rng.chance( 60 );
					p.index = rng.below( p.maxPass );
				}
			}

			//---------------------------------------------------------------- external inputs

			uint64_t extToken( int i, uint32_t c )const { return mix( mix( 0xE27, uint64_t( i ) ), mix( uint64_t( frame ), c ) ); }

			Obj * imgObj( int i )
			{
				// through the handler the image is created once per handler
				if ( !graphs[imgs[i].graph].runnable ) return nullptr;
				auto h = ( uint64_t )graphs[imgs[i].graph].runnable->createImage( imgs[i].id );
				return drv.get( h, T::Image );
			}

			void declareExternals()
			{
				for ( size_t i = 0; i < imgs.size(); ++i )
				{
					auto & im = imgs[i];
					if ( !im.external ) continue;
					VkImageSubresourceRange r{ im.aspects, 0, im.M, 0, im.L };
					// each graph is told in which layout the external producer leaves the image
					for ( auto & g : graphs )
					{
						bool uses = false;
						for ( auto p : g.passes ) for ( auto & a : passes[p].atts ) for ( auto v : a.views ) if ( views[v].img == int( i ) ) uses = true;
						if ( !uses ) continue;
						g.graph->addInput( im.id, typeOf( int( i ), r, 0, 50 ), r, crg::makeLayoutState( im.extLayout ) );
					}
				}
			}

			void feedExternals()
			{
				for ( size_t i = 0; i < imgs.size(); ++i )
				{
					auto & im = imgs[i];
					if ( !im.external ) continue;
					auto o = imgObj( int( i ) );
					if ( !o ) continue;
					bool hd = isDepthFmt( o->imgCI.format );
					for ( uint32_t c = 0; c < im.cells(); ++c )
					{
						o->subs[c].layout = drv.normLayout( im.extLayout, c / ( im.L * im.M ), hd );
						o->subs[c].content = im.model[c] = extToken( int( i ), c );
					}
				}
			}

			//---------------------------------------------------------------- replay monitor

			uint64_t passToken( int id, int idx, uint64_t cell )const { return mix( mix( uint64_t( id ) + 17, uint64_t( idx ) ), mix( uint64_t( frame ) + 31, cell ) ); }

			std::string passStr( int id )const { return passes[id].name + "(" + kindName( passes[id].kind ) + ")"; }

			std::string cellStr( ImgSpec const & im, uint32_t c )const
			{
				return im.data.name + " aspect " + std::to_string( c / ( im.L * im.M ) ) + " layer " + std::to_string( c / im.M % im.L ) + " mip " + std::to_string( c % im.M );
			}

			void checkRead( int id, AttSpec const & a, ViewSpec const & v, Obj & o )
			{
				auto & im = imgs[v.img];
				for ( auto c : v.cells )
				{
					stats.add( "image reads checked" );
					auto exp = im.model[c];
					if ( exp == 0 ) { stats.add( "image reads of undefined content" ); continue; }
					stats.add( "image reads of known content" );
					if ( o.subs[c].content != exp )
					{
						drv.viol( "data", std::string( "image-read:" ) + ( o.subs[c].content ? "stale" : "lost" ) + ":" + useName( a.use )
							, "pass " + passStr( id ) + " reads " + cellStr( im, c ) + " as " + useName( a.use ) + " and finds " + ( o.subs[c].content ? "other content than" : "no content instead of" ) + " what the last writer left" );
						im.model[c] = o.subs[c].content;
					}
				}
			}

			void checkLayout( int id, AttSpec const & a, ViewSpec const & v, Obj & o, VkImageLayout l )
			{
				auto & im = imgs[v.img];
				bool hd = isDepthFmt( o.imgCI.format );
				for ( auto c : v.cells )
				{
					stats.add( "declared layouts checked" );
					if ( o.subs[c].layout != drv.normLayout( l, c / ( im.L * im.M ), hd ) )
						drv.viol( "declared", std::string( "declared-layout:" ) + useName( a.use )
							, "pass " + passStr( id ) + " declared " + useName( a.use ) + " (" + layoutName( l ) + ") on " + cellStr( im, c ) + " which is in " + layoutName( o.subs[c].layout ) + " when the pass runs" );
				}
			}

			VkPipelineStageFlags stageOf( PassSpec const & p, Use u )const
			{
				if ( u == Use::TrIn || u == Use::TrOut || u == Use::TrIO ) return VK_PIPELINE_STAGE_TRANSFER_BIT;
				return p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
			}
			VkAccessFlags accOf( Use u, bool w )const
			{
				if ( u == Use::TrIn || u == Use::TrOut || u == Use::TrIO ) return w ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_TRANSFER_READ_BIT;
				return w ? VK_ACCESS_SHADER_WRITE_BIT : VK_ACCESS_SHADER_READ_BIT;
			}
			static bool isTr( BUse u ) { return u == BUse::TrIn || u == BUse::TrOut || u == BUse::TrIO; }

			std::vector< std::pair< AttSpec const *, int > > rpAtts( PassSpec const & p, int idx )
			{
				// depth and stencil attachments are inserted in front by the library: only the set matters here
				std::vector< std::pair< AttSpec const *, int > > r;
				for ( auto & a : p.atts ) if ( isRP( a.use ) ) r.emplace_back( &a, a.view( uint32_t( idx ) ) );
				return r;
			}

			void onMarker( Exec & e, Cmd const & c )
			{
				if ( c.mkind != M_End ) events.push_back( { c.mkind, c.mpass, c.mindex } );
				eventHash = mix( eventHash, mix( uint64_t( c.mkind ), mix( uint64_t( c.mpass ), uint64_t( c.mindex ) ) ) );
				stats.add( "markers observed" );
				if ( c.mkind == M_ImpBegin || c.mkind == M_ImpEnd )
				{
					implicitMarker( e, c );
					return;
				}
				int id = c.mpass, idx = c.mindex;
				auto & p = passes[id];
				if ( idx < 0 || uint32_t( idx ) >= p.maxPass || uint32_t( idx ) != p.index )
				{
					drv.viol( "index", "pass-index", "pass " + passStr( id ) + " was given index " + std::to_string( idx ) + " instead of " + std::to_string( p.index ) );
					return;
				}
				drawMarker( e, c );
				if ( c.mkind == M_End ) return;
				if ( c.mkind == M_Pre ) passTS = lastTS;
				else if ( c.mkind == M_Post ) endTS = id;
				curRec = c.mkind == M_Rec ? id : -1;
				ownFirst = 0;
				if ( c.mkind == M_Pre )
				{
					stats.add( "debug labels checked" );
					auto & l = e.labels;
					auto end = "/" + passes[id].name;
					if ( l.empty() || l.back().size() < end.size() || l.back().compare( l.back().size() - end.size(), end.size(), end ) )
						drv.viol( "debug", "label", "pass " + passStr( id ) + " is recorded inside the debug label \"" + ( l.empty() ? std::string{} : l.back() ) + "\"" );
				}
				if ( c.mkind == M_Pre ) onPre( e, id, idx );
				else if ( c.mkind == M_Rec ) onRec( e, id, idx );
				else if ( c.mkind == M_Post ) onPost( e, id, idx );
			}

			void implicitMarker( Exec & e, Cmd const & c )
			{
				auto & p = passes[c.mpass];
				auto & v = views[c.mextra];
				if ( e.inRP ) drv.viol( "struct", "implicit-in-rp", "implicit action recorded inside a render pass" );
				if ( c.mkind == M_ImpBegin )
				{
					impSeen.emplace_back( c.mpass, int( events.size() ) );
					return;
				}
				auto o = imgObj( v.img );
				auto & im = imgs[v.img];
				for ( size_t k = 0; k < v.cells.size(); ++k )
				{
					auto cell = v.cells[k];
					if ( p.implicitKind == 0 )
						im.model[cell] = clearToken( !im.ds, p.implicitClear, aIdx( im, cell / ( im.L * im.M ) ) );
					else
					{
						auto & sv = views[p.implicitSrc];
						auto t = imgs[sv.img].model[sv.cells[k]];
						im.model[cell] = t && p.implicitKind == 2 ? mix( t, 0xB117 + uint64_t( p.implicitFilter ) ) : t;
					}
					stats.add( p.implicitKind == 0 ? "implicit clears checked" : "implicit transfers checked" );
					if ( im.model[cell] && o->subs[cell].content != im.model[cell] )
						drv.viol( "implicit", "implicit-content", std::string( "implicit " ) + ( p.implicitKind ? "transfer to " : "clear of " ) + cellStr( im, cell ) + " had no effect" );
					if ( p.implicitFinal != VK_IMAGE_LAYOUT_UNDEFINED && o->subs[cell].layout != drv.normLayout( p.implicitFinal, cell / ( im.L * im.M ), im.hasD ) )
						drv.viol( "implicit", "implicit-layout", "implicit clear of " + cellStr( im, cell ) + " left it in " + layoutName( o->subs[cell].layout ) );
				}
			}

			void onPre( Exec & e, int id, int idx )
			{
				auto & p = passes[id];
				if ( e.inRP ) drv.viol( "struct", "pass-in-rp", "pass " + passStr( id ) + " begins inside a render pass" );
				for ( auto & a : p.atts )
				{
					if ( isRP( a.use ) ) continue;
					auto & v = views[a.view( uint32_t( idx ) )];
					auto o = imgObj( v.img );
					if ( !o ) continue;
					checkLayout( id, a, v, *o, declaredLayout( a.use, prof.separateDS, a.wanted ) );
					auto & im = imgs[v.img];
					if ( a.use == Use::StClr )
					{
						VkClearValue z{};
						for ( auto c : v.cells )
						{
							auto t = clearToken( !im.ds, z, aIdx( im, c / ( im.L * im.M ) ) );
							stats.add( "clearable attachments checked" );
							if ( o->subs[c].content != t )
								drv.viol( "clear", "clearable-image", "clearable storage view " + cellStr( im, c ) + " is not cleared when pass " + passStr( id ) + " runs" );
							im.model[c] = o->subs[c].content;
						}
					}
					else if ( reads( a.use ) && a.use != Use::Impl )
						checkRead( id, a, v, *o );
					else if ( a.use == Use::Impl )
						checkRead( id, a, v, *o );
				}
				for ( auto & a : p.bufs )
				{
					auto bi = a.buf( uint32_t( idx ) );
					auto & b = bufs[bi];
					auto o = drv.find( b.h, T::Buffer );
					for ( auto g = size_t( a.off / Granule ); g < ( a.off + realSize( a, bi ) ) / Granule; ++g )
					{
						if ( a.use == BUse::StClr || a.use == BUse::StClrV )
						{
							stats.add( "clearable attachments checked" );
							if ( o->granContent[g] != fillToken( 0 ) )
								drv.viol( "clear", "clearable-buffer", "clearable storage buffer " + b.name + " granule " + std::to_string( g ) + " is not cleared when pass " + passStr( id ) + " runs" );
							b.model[g] = o->granContent[g];
						}
						else if ( reads( a.use ) )
						{
							stats.add( "buffer reads checked" );
							if ( b.model[g] && o->granContent[g] != b.model[g] )
							{
								drv.viol( "data", std::string( "buffer-read:" ) + buseName( a.use ), "pass " + passStr( id ) + " reads " + b.name + " granule " + std::to_string( g ) + " as " + buseName( a.use ) + " and finds other content than what the last writer left" );
								b.model[g] = o->granContent[g];
							}
						}
					}
				}
			}

			void onRec( Exec & e, int id, int idx )
			{
				auto & p = passes[id];
				bool rp = p.kind == PK::RenderPass || p.kind == PK::Quad || p.kind == PK::Mesh;
				if ( rp != e.inRP )
					drv.viol( "struct", rp ? "record-outside-rp" : "record-inside-rp", "pass " + passStr( id ) + " records " + ( rp ? "outside" : "inside" ) + " of a render pass instance" );
				if ( rp && e.inRP ) checkAttachments( e, id, idx );
				checkProgram( e, p, id, idx );
				bool sync = drv.checkSync;
				std::string who = "pass " + passStr( id );
				// reads first
				if ( sync )
				{
					for ( auto & a : p.atts )
					{
						if ( isRP( a.use ) || a.use == Use::Impl || !reads( a.use ) ) continue;
						auto & v = views[a.view( uint32_t( idx ) )];
						if ( auto o = imgObj( v.img ) )
							for ( auto c : v.cells ) { stats.add( "image accesses sync-checked" ); drv.accessImage( o->subs[c], stageOf( p, a.use ), accOf( a.use, false ), false, who, std::string( "image:" ) + useName( a.use ) ); }
					}
					for ( auto & a : p.bufs )
					{
						if ( a.use == BUse::Impl || !reads( a.use ) ) continue;
						auto bi = a.buf( uint32_t( idx ) );
						auto o = drv.find( bufs[bi].h, T::Buffer );
						for ( auto g = size_t( a.off / Granule ); g < ( a.off + realSize( a, bi ) ) / Granule; ++g )
						{
							stats.add( "buffer accesses sync-checked" );
							drv.accessCell( o->granSync[g], isTr( a.use ) ? VK_PIPELINE_STAGE_TRANSFER_BIT : p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT
								, isTr( a.use ) ? VK_ACCESS_TRANSFER_READ_BIT : a.use == BUse::Uniform ? VK_ACCESS_UNIFORM_READ_BIT : VK_ACCESS_SHADER_READ_BIT, false, who, std::string( "buffer:" ) + buseName( a.use ) );
						}
					}
				}
				for ( auto & a : p.atts )
				{
					if ( !writes( a.use ) ) continue;
					auto & v = views[a.view( uint32_t( idx ) )];
					auto & im = imgs[v.img];
					auto o = imgObj( v.img );
					if ( !o ) continue;
					for ( auto c : writtenCells( a, v ) )
					{
						auto t = passToken( id, idx, c );
						if ( reads( a.use ) )
							t = im.model[c] ? mix( im.model[c], t ) : o->subs[c].content ? mix( o->subs[c].content, t ) : t;
						im.model[c] = t;
						o->subs[c].content = t;
						stats.add( "image writes" );
						if ( sync && !isRP( a.use ) ) { stats.add( "image accesses sync-checked" ); drv.accessImage( o->subs[c], stageOf( p, a.use ), accOf( a.use, true ), true, who, std::string( "image:" ) + useName( a.use ) ); }
					}
				}
				for ( auto & a : p.bufs )
				{
					if ( !writes( a.use ) ) continue;
					auto bi = a.buf( uint32_t( idx ) );
					auto & b = bufs[bi];
					auto o = drv.find( b.h, T::Buffer );
					for ( auto g = size_t( a.off / Granule ); g < ( a.off + realSize( a, bi ) ) / Granule; ++g )
					{
						b.model[g] = o->granContent[g] = passToken( id, idx, 1000 + g );
						stats.add( "buffer writes" );
						if ( sync )
						{
							stats.add( "buffer accesses sync-checked" );
							drv.accessCell( o->granSync[g], isTr( a.use ) ? VK_PIPELINE_STAGE_TRANSFER_BIT : p.compute ? VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT : VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT
								, isTr( a.use ) ? VK_ACCESS_TRANSFER_WRITE_BIT : VK_ACCESS_SHADER_WRITE_BIT, true, who, std::string( "buffer:" ) + buseName( a.use ) );
						}
					}
				}
			}

			// the cells an attachment of the pass writes; depth attachments leave stencil undefined and conversely
			std::vector< uint32_t > writtenCells( AttSpec const & a, ViewSpec const & v )const
			{
				auto & im = imgs[v.img];
				if ( im.A != 2 || !isRP( a.use ) ) return v.cells;
				std::vector< uint32_t > r;
				bool d = a.use == Use::DOut || a.use == Use::DIO || a.use == Use::DSOut || a.use == Use::DSIO;
				bool s = a.use == Use::SOut || a.use == Use::SIO || a.use == Use::DSOut || a.use == Use::DSIO;
				for ( auto c : touched( a, v ) )
					if ( c / ( im.L * im.M ) == 0 ? d : s ) r.push_back( c );
				return r;
			}

			void checkAttachments( Exec & e, int id, int idx )
			{
				auto & p = passes[id];
				auto want = rpAtts( p, idx );
				stats.add( "render pass instances checked" );
				if ( want.size() != e.views.size() )
				{
					drv.viol( "rp", "attachment-count", "pass " + passStr( id ) + " declared " + std::to_string( want.size() ) + " attachments, its framebuffer has " + std::to_string( e.views.size() ) );
					return;
				}
				std::set< size_t > used;
				size_t nextColour = 0;
				VkExtent3D ext{};
				for ( auto & [a, vi] : want )
				{
					auto & v = views[vi];
					auto h = graphs[p.graph].runnable->createImageView( v.id );
					size_t k = 0;
					while ( k < e.views.size() && ( e.views[k] != h || used.count( k ) ) ) ++k;
					if ( k == e.views.size() )
					{
						drv.viol( "rp", std::string( "attachment-missing:" ) + useName( a->use ), "pass " + passStr( id ) + " index " + std::to_string( idx ) + ": its " + useName( a->use ) + " view is no attachment of the framebuffer" );
						continue;
					}
					used.insert( k );
					ext = mipExt( imgs[v.img], v.range.baseMipLevel );
					bool colour = a->use == Use::CIn || a->use == Use::CIO || a->use == Use::COut;
					VkImageLayout l = declaredLayout( a->use, prof.separateDS, {} );
					if ( colour )
					{
						// colour attachments keep their declaration order: it is the shader's output location
						if ( nextColour >= e.rpInfo.colours.size() || e.rpInfo.colours[nextColour].attachment != k )
							drv.viol( "rp", "colour-location", "pass " + passStr( id ) + ": colour view " + std::to_string( nextColour ) + " is not colour attachment " + std::to_string( nextColour ) );
						else if ( e.rpInfo.colours[nextColour].layout != l )
							drv.viol( "declared", std::string( "declared-layout:" ) + useName( a->use ), "pass " + passStr( id ) + " declared " + useName( a->use ) + " but its attachment is in " + layoutName( e.rpInfo.colours[nextColour].layout ) );
						++nextColour;
					}
					else
					{
						if ( !e.rpInfo.hasDepth || e.rpInfo.depth.attachment != k )
							drv.viol( "rp", "depth-reference", "pass " + passStr( id ) + ": its depth/stencil view is not the depth/stencil attachment" );
						else if ( e.rpInfo.depth.layout != l )
							drv.viol( "declared", std::string( "declared-layout:" ) + useName( a->use ), "pass " + passStr( id ) + " declared " + useName( a->use ) + " but its attachment is in " + layoutName( e.rpInfo.depth.layout ) );
					}
					auto & im = imgs[v.img];
					auto o = imgObj( v.img );
					bool d = a->use == Use::DIn || a->use == Use::DIO || a->use == Use::DOut;
					bool s = a->use == Use::SIn || a->use == Use::SIO || a->use == Use::SOut;
					for ( auto c : touched( *a, v ) )
					{
						uint32_t asp = aIdx( im, c / ( im.L * im.M ) );
						if ( im.ds && ( ( d && asp == 1 ) || ( s && asp == 0 ) ) )
						{
							// the aspect which was not declared is given up
							im.model[c] = 0;
							continue;
						}
						if ( reads( a->use ) )
						{
							if ( !im.model[c] ) continue;
							stats.add( "image reads of known content" );
							if ( o->subs[c].content != im.model[c] )
							{
								drv.viol( "data", std::string( "attachment-load:" ) + ( o->subs[c].content ? "stale" : "lost" ) + ":" + useName( a->use )
									, "pass " + passStr( id ) + " loads " + cellStr( im, c ) + " as " + useName( a->use ) + " and does not find what the last writer left" );
								im.model[c] = o->subs[c].content;
							}
						}
						else
						{
							stats.add( "cleared attachments checked" );
							auto t = clearToken( !im.ds, a->clear, asp );
							if ( o->subs[c].content != t )
								drv.viol( "clear", std::string( "attachment-clear:" ) + useName( a->use ), "pass " + passStr( id ) + ": " + useName( a->use ) + " attachment " + cellStr( im, c ) + " is not cleared to its clear value" );
						}
					}
				}
				if ( ext.width && ( e.area.extent.width != ext.width || e.area.extent.height != ext.height || e.area.offset.x || e.area.offset.y ) )
					drv.viol( "rp", "render-area-extent", "pass " + passStr( id ) + ": render area " + std::to_string( e.area.extent.width ) + "x" + std::to_string( e.area.extent.height ) + " instead of " + std::to_string( ext.width ) + "x" + std::to_string( ext.height ) );
				if ( !want.empty() && e.fb && e.fb->fbL != views[want[0].second].range.layerCount )
					drv.viol( "rp", "framebuffer-layers", "pass " + passStr( id ) + ": framebuffer with " + std::to_string( e.fb->fbL ) + " layers instead of " + std::to_string( views[want[0].second].range.layerCount ) );
			}

			void onPost( Exec & e, int id, int idx )
			{
				auto & p = passes[id];
				if ( e.inRP ) drv.viol( "struct", "post-in-rp", "pass " + passStr( id ) + " ends inside a render pass" );
				// library-recorded transfers: compare with what they should have moved
				auto img = [&]( size_t k ) -> std::pair< ViewSpec *, Obj * > { auto & v = views[p.atts[k].view( uint32_t( idx ) )]; return { &v, imgObj( v.img ) }; };
				auto cmp = [&]( ViewSpec & v, Obj & o, uint32_t c, uint64_t t, char const * sig )
				{
					auto & im = imgs[v.img];
					stats.add( "transfer results checked" );
					if ( t && o.subs[c].content != t )
						drv.viol( "transfer", sig, "pass " + passStr( id ) + ": " + cellStr( im, c ) + " does not hold what was to be transferred" );
					im.model[c] = t ? o.subs[c].content : 0;
				};
				switch ( p.kind )
				{
				case PK::Copy: case PK::Blit:
					{
						for ( size_t pair = 0; pair + 1 < p.atts.size(); pair += 2 )
						{
							auto [sv, so] = img( pair );
							auto [dv, dobj] = img( pair + 1 );
							for ( size_t k = 0; k < dv->cells.size(); ++k )
							{
								auto t = imgs[sv->img].model[sv->cells[k]];
								if ( p.kind == PK::Blit && t ) t = mix( t, 0xB117 + uint64_t( p.filter ) );
								cmp( *dv, *dobj, dv->cells[k], t, p.kind == PK::Copy ? "image-copy" : "image-blit" );
								auto l = p.finalLayout != VK_IMAGE_LAYOUT_UNDEFINED ? p.finalLayout : VK_IMAGE_LAYOUT_TRANSFER_DST_OPTIMAL;
								if ( dobj->subs[dv->cells[k]].layout != drv.normLayout( l, dv->cells[k] / ( imgs[dv->img].L * imgs[dv->img].M ), imgs[dv->img].hasD ) )
									drv.viol( "transfer", "final-layout", "pass " + passStr( id ) + " leaves " + cellStr( imgs[dv->img], dv->cells[k] ) + " in " + layoutName( dobj->subs[dv->cells[k]].layout ) + " instead of " + layoutName( l ) );
							}
						}
						break;
					}
				case PK::BufCopy:
					{
						auto sb = p.bufs[0].buf( uint32_t( idx ) ), db = p.bufs[1].buf( uint32_t( idx ) );
						auto o = drv.find( bufs[db].h, T::Buffer );
						for ( size_t g = 0; g < p.copySize / Granule; ++g )
						{
							auto s = size_t( ( p.bufs[0].off + p.copyOff ) / Granule + g ), d = size_t( ( p.bufs[1].off + p.copyOff ) / Granule + g );
							auto t = bufs[sb].model[s];
							stats.add( "transfer results checked" );
							if ( t && o->granContent[d] != t )
								drv.viol( "transfer", "buffer-copy", "pass " + passStr( id ) + ": " + bufs[db].name + " granule " + std::to_string( d ) + " does not hold what was to be copied" );
							bufs[db].model[d] = t ? o->granContent[d] : 0;
						}
						break;
					}
				case PK::B2I: case PK::I2B:
					{
						auto [v, o] = img( 0 );
						auto bi = p.bufs[0].buf( uint32_t( idx ) );
						auto & b = bufs[bi];
						auto bo = drv.find( b.h, T::Buffer );
						auto first = size_t( p.bufs[0].off / Granule );
						uint64_t bytes = uint64_t( p.ext.width ) * p.ext.height * p.ext.depth * v->range.layerCount * texel( imgs[v->img].data.info.format );
						auto n = size_t( ( bytes + Granule - 1 ) / Granule );
						if ( p.kind == PK::B2I )
						{
							for ( size_t k = 0; k < v->cells.size(); ++k )
								cmp( *v, *o, v->cells[k], b.model[first + std::min( k, n - 1 )], "buffer-to-image" );
						}
						else
						{
							for ( size_t k = 0; k < n; ++k )
							{
								auto t = imgs[v->img].model[v->cells[std::min( k, v->cells.size() - 1 )]];
								stats.add( "transfer results checked" );
								if ( t && bo->granContent[first + k] != t )
									drv.viol( "transfer", "image-to-buffer", "pass " + passStr( id ) + ": " + b.name + " granule " + std::to_string( first + k ) + " does not hold what was to be copied" );
								b.model[first + k] = t ? bo->granContent[first + k] : 0;
							}
						}
						break;
					}
				case PK::Mips:
					{
						auto [v, o] = img( 0 );
						auto & im = imgs[v->img];
						auto & mr = v->range;
						for ( uint32_t l = mr.baseArrayLayer; l < mr.baseArrayLayer + mr.layerCount; ++l )
							for ( uint32_t a = 0; a < im.A; ++a )
							{
								auto t = im.model[im.cell( a, l, 0 )];
								for ( uint32_t m = 1; m < im.M; ++m )
								{
									t = t ? mix( t, 0xB117 + uint64_t( im.ds ? VK_FILTER_NEAREST : VK_FILTER_LINEAR ) ) : 0;
									cmp( *v, *o, im.cell( a, l, m ), t, "mipmaps" );
								}
							}
						break;
					}
				default:
					break;
				}
				for ( auto & a : p.bufs )
				{
					if ( p.kind == PK::BufCopy ) break;
					auto & b = bufs[a.buf( uint32_t( idx ) )];
					( void )b;
				}
			}

			//---------------------------------------------------------------- after a run

			void checkOrder( int g )
			{
				// M_Pre, (M_Rec), M_Post contiguous, once per enabled pass, after its dependencies
				std::map< int, int > pos;
				std::map< int, int > count;
				int open = -1, stage = 0, n = 0;
				std::vector< int > seen;
				for ( auto & ev : events )
				{
					if ( ev.kind == M_ImpBegin || ev.kind == M_ImpEnd ) continue;
					if ( passes[ev.pass].graph != g )
					{
						drv.viol( "order", "foreign-pass", "pass " + passStr( ev.pass ) + " of another graph was recorded" );
						continue;
					}
					if ( ev.kind == M_Pre )
					{
						if ( open >= 0 ) drv.viol( "order", "interleaved", "pass " + passStr( ev.pass ) + " begins before " + passStr( open ) + " has ended" );
						open = ev.pass;
						stage = 1;
						pos[ev.pass] = n++;
						seen.push_back( ev.pass );
						++count[ev.pass];
					}
					else if ( ev.kind == M_Rec )
					{
						if ( open != ev.pass || stage != 1 ) drv.viol( "order", "record-sequence", "pass " + passStr( ev.pass ) + " records out of sequence" );
						stage = 2;
					}
					else
					{
						bool lib = passes[ev.pass].kind >= PK::Copy;
						if ( open != ev.pass || ( !lib && stage != 2 ) ) drv.viol( "order", "record-sequence", "pass " + passStr( ev.pass ) + " ends out of sequence" );
						open = -1;
					}
				}
				if ( open >= 0 ) drv.viol( "order", "record-sequence", "pass " + passStr( open ) + " was never ended" );
				for ( auto id : graphs[g].passes )
				{
					stats.add( "pass executions checked" );
					auto c = count.count( id ) ? count[id] : 0;
					if ( c != ( passes[id].enabled ? 1 : 0 ) )
						drv.viol( passes[id].enabled ? "order" : "enabled", passes[id].enabled ? ( c ? "executed-twice" : "not-executed" ) : "disabled-executed"
							, std::string( passes[id].enabled ? "enabled" : "disabled" ) + " pass " + passStr( id ) + " was executed " + std::to_string( c ) + " times" );
				}
				// transitive dependencies, also through disabled passes
				for ( auto id : graphs[g].passes )
				{
					if ( !pos.count( id ) ) continue;
					std::vector< int > st( passes[id].deps.begin(), passes[id].deps.end() );
					std::set< int > vis( st.begin(), st.end() );
					while ( !st.empty() )
					{
						auto d = st.back(); st.pop_back();
						stats.add( "dependencies checked" );
						if ( pos.count( d ) && pos[d] > pos[id] )
							drv.viol( "order", "dependency-order", "pass " + passStr( id ) + " was executed before " + passStr( d ) + " which it depends on" );
						for ( auto x : passes[d].deps ) if ( vis.insert( x ).second ) st.push_back( x );
					}
				}
				uint64_t h = 0x51;
				for ( auto s : seen ) h = mix( h, uint64_t( s ) );
				stats.shapes.insert( mix( h, seed ) );
			}

			void checkImplicit( int g )
			{
				// full order: that of the creation of the runnable passes, if the enabled ones agree with it
				std::vector< int > seen;
				for ( auto & ev : events ) if ( ev.kind == M_Pre ) seen.push_back( ev.pass );
				std::vector< int > exp;
				for ( auto id : graphs[g].order ) if ( passes[id].enabled ) exp.push_back( id );
				if ( seen != exp ) { stats.add( "implicit checks skipped (order unknown)" ); return; }
				std::vector< std::pair< int, int > > pending;  // pass, view
				std::vector< std::pair< int, int > > wanted;   // ( acting pass, before pass )
				for ( auto id : graphs[g].order )
				{
					auto & p = passes[id];
					if ( p.enabled )
					{
						// the library visits depth/stencil attachments first: order between attachments is irrelevant here
						std::function< void( int ) > use = [&]( int vi )
						{
							for ( bool again = true; again; )
							{
								again = false;
								for ( auto it = pending.begin(); it != pending.end(); ++it )
									if ( views[it->second].id == views[vi].id )
									{
										auto who = it->first;
										pending.erase( it );
										if ( !passes[who].enabled )
										{
											wanted.emplace_back( who, id );
											// the view it copies from is used as well
											if ( passes[who].implicitSrc >= 0 ) use( passes[who].implicitSrc );
										}
										again = true;
										break;
									}
							}
						};
						for ( auto & a : p.atts ) use( a.view( p.index ) );
					}
					if ( p.implicitAtt >= 0 ) pending.emplace_back( id, p.atts[p.implicitAtt].views[0] );
				}
				// observed: implicit marks are followed by the M_Pre of the pass they act for
				std::vector< std::pair< int, int > > got;
				std::vector< int > cur;
				for ( auto & ev : events )
				{
					if ( ev.kind == M_ImpBegin ) cur.push_back( ev.pass );
					else if ( ev.kind == M_Pre )
					{
						for ( auto c : cur ) got.emplace_back( c, ev.pass );
						cur.clear();
					}
				}
				for ( auto c : cur ) got.emplace_back( c, -1 );
				std::sort( got.begin(), got.end() );
				std::sort( wanted.begin(), wanted.end() );
				stats.add( "implicit actions expected", wanted.size() );
				stats.add( "implicit checks" );
				if ( got != wanted )
				{
					for ( auto & x : wanted ) if ( std::find( got.begin(), got.end(), x ) == got.end() )
						drv.viol( "implicit", "implicit-missing", "the implicit action of disabled pass " + passStr( x.first ) + " was not run before " + passStr( x.second ) );
					for ( auto & x : got ) if ( std::find( wanted.begin(), wanted.end(), x ) == wanted.end() )
						drv.viol( "implicit", "implicit-unexpected", "the implicit action of pass " + passStr( x.first ) + " was run without need" );
					drv.viol( "implicit", "implicit-count", "implicit actions were run another number of times than expected" );
				}
			}

			void checkFinalStates( int g )
			{
				auto & G = *graphs[g].graph;
				std::set< std::pair< int, uint32_t > > used;
				for ( auto id : graphs[g].passes )
					if ( passes[id].enabled )
						for ( auto & a : passes[id].atts )
							for ( auto c : views[a.view( passes[id].index )].cells ) used.emplace( views[a.view( passes[id].index )].img, c );
				for ( auto & [i, c] : used )
				{
					auto & im = imgs[i];
					auto o = imgObj( i );
					if ( !o ) continue;
					uint32_t a = c / ( im.L * im.M ), l = c / im.M % im.L, m = c % im.M;
					VkImageAspectFlags bit = im.A == 2 ? ( a == 0 ? VK_IMAGE_ASPECT_DEPTH_BIT : VK_IMAGE_ASPECT_STENCIL_BIT ) : im.aspects;
					auto st = G.getFinalLayoutState( im.id, is3D( i ) ? VK_IMAGE_VIEW_TYPE_3D : is1D( i ) ? VK_IMAGE_VIEW_TYPE_1D : VK_IMAGE_VIEW_TYPE_2D, { bit, m, 1, l, 1 } );
					stats.add( "final layouts checked" );
					if ( drv.normLayout( st.layout, a, im.hasD ) != o->subs[c].layout )
						drv.viol( "final", "final-layout", "graph " + std::to_string( g ) + " reports " + layoutName( st.layout ) + " as final layout of " + cellStr( im, c ) + " which is in " + layoutName( o->subs[c].layout ) );
				}
				for ( auto & b : bufs ) b.touched = false;
				for ( auto & ev : events )
				{
					if ( ev.kind != M_Pre ) continue;
					auto & p = passes[ev.pass];
					for ( auto & a : p.bufs )
					{
						auto & b = bufs[a.buf( uint32_t( ev.index ) )];
						b.touched = true;
					}
				}
			}

			void checkOutputs( int g )
			{
				for ( auto & [vi, l] : graphs[g].outputs )
				{
					auto & v = views[vi];
					auto & im = imgs[v.img];
					auto o = imgObj( v.img );
					// only when the last enabled pass touching each cell exists in this graph
					for ( auto c : v.cells )
					{
						int last = -1;
						for ( auto & ev : events )
							if ( ev.kind == M_Pre )
								for ( auto & a : passes[ev.pass].atts )
									for ( auto t : touched( a, views[a.view( uint32_t( ev.index ) )] ) )
										if ( views[a.view( uint32_t( ev.index ) )].img == v.img && t == c ) last = ev.pass;
						if ( last < 0 ) continue;
						stats.add( "output layouts checked" );
						if ( o->subs[c].layout != drv.normLayout( l, c / ( im.L * im.M ), im.hasD ) )
							drv.viol( "output", "output-layout", "graph output " + cellStr( im, c ) + " is left in " + layoutName( o->subs[c].layout ) + " by " + passStr( last ) + " instead of " + layoutName( l ) );
					}
				}
			}

			void declareOutputs()
			{
				// outputs: views used by the last pass touching them, whole partition elements only
				for ( size_t g = 0; g < graphs.size(); ++g )
				{
					for ( int t = 0; t < 3; ++t )
					{
						if ( !rng.chance( prof.pOutput ) || graphs[g].passes.empty() ) continue;
						auto & p = passes[rng.pick( graphs[g].passes )];
						if ( p.atts.empty() ) continue;
						auto & a = rng.pick( p.atts );
						auto vi = a.views[0];
						auto & v = views[vi];
						if ( !v.merged.empty() ) continue;
						if ( imgs[v.img].A == 2 ) continue;
						bool clash = false;
						for ( auto & [o, l] : graphs[g].outputs )
							if ( views[o].img == v.img ) clash = true;
						if ( clash ) continue;
						VkImageLayout l[]{ VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL, VK_IMAGE_LAYOUT_GENERAL };
						auto lay = l[rng.below( 3 )];
						graphs[g].outputs[vi] = lay;
						graphs[g].graph->addOutput( v.id, crg::makeLayoutState( lay ) );
					}
				}
			}

			// Nothing remains: nothing is reported, except what the injected faults made the library report.
			void checkReports( std::string const & said )
			{
				if ( variant ) return;
				stats.add( "debug names and logs checked", drv.namesChecked );
				stats.add( "rules of device calls checked", drv.rulesChecked );
				stats.add( "leak reports checked" );
				if ( !said.empty() )
					drv.viol( "debug", "false-leak", "the context reports: " + said.substr( 0, 200 ) );
				for ( auto & [h, r] : drv.registered )
					drv.viol( "debug", "listed-at-end", r.first + " " + r.second + " is still listed as allocated when everything is destroyed" );
				for ( auto & m : drv.errors )
					if ( !prof.faults || m.rfind( "Leaked", 0 ) == 0 )
						drv.viol( "debug", "error-log", "an error is logged: " + m );
			}

			// Forget what a compilation left in the model.
			void forgetCompile( int g )
			{
				auto & G = graphs[g];
				G.runnable.reset();
				G.order.clear();
				for ( auto id : G.passes )
				{
					passes[id].run = nullptr;
					passes[id].createdAt = -1;
					passes[id].initialised.clear();
					ownTimers.erase( id );
				}
				ctx->delQueue.clear( *ctx );
			}

			std::set< uint64_t > aliveObjects()
			{
				std::set< uint64_t > r;
				for ( auto h : drv.order ) if ( drv.objs[h]->alive && !drv.objs[h]->external ) r.insert( h );
				return r;
			}

			// Every device call made by a compilation fails in turn.
			void compileFaults( int g )
			{
				auto & G = graphs[g];
				auto before = aliveObjects();
				auto first = drv.fallible;
				G.runnable = G.graph->compile( *ctx );
				auto calls = drv.fallible - first;
				forgetCompile( g );
				auto check = [&]( std::string const & when )
				{
					std::map< T, std::pair< int, uint64_t > > leaked;
					for ( auto h : aliveObjects() )
						if ( !before.count( h ) ) { auto & l = leaked[drv.objs[h]->type]; ++l.first; l.second = h; }
					for ( auto & [t, l] : leaked )
						drv.viol( "fault-leak", std::string( "leak-" ) + typeName( t ) + ":" + when, std::to_string( l.first ) + " " + typeName( t ) + " still alive after " + when + ", e.g. " + drv.describe( l.second ) );
					if ( !leaked.empty() ) before = aliveObjects();
				};
				check( "a compilation and its destruction" );
				for ( int64_t k = 1; k <= calls; ++k )
				{
					drv.failAt = drv.fallible + k;
					drv.failCode = rng.chance( 50 ) ? VK_ERROR_OUT_OF_DEVICE_MEMORY : VK_ERROR_OUT_OF_HOST_MEMORY;
					drv.failedCall.clear();
					bool thrown{};
					try
					{
						G.runnable = G.graph->compile( *ctx );
					}
					catch ( crg::Exception & )
					{
						thrown = true;
					}
					drv.failAt = -1;
					stats.add( "failures injected" );
					stats.add( "failures injected in " + drv.failedCall );
					if ( drv.failedCall.empty() ) drv.viol( "fault", "not-reached", "a compilation makes fewer device calls when it is repeated: " + std::to_string( k ) + " of " + std::to_string( calls ) );
					else if ( !thrown ) drv.viol( "fault", "unreported:" + drv.failedCall, "the failure of " + drv.failedCall + " is not reported" );
					forgetCompile( g );
					check( drv.failedCall + " fails" );
				}
			}

			void onTimestamp( Cmd const & c )
			{
				if ( c.op != Op::WriteTS ) return;
				auto q = drv.find( c.a, T::QueryPool );
				if ( !q || c.n[0] >= q->queryCount ) return;
				auto ts = q->queryValue[c.n[0]];
				if ( curRec >= 0 && ownTimers.count( curRec ) && endTS < 0 )
				{
					if ( ownFirst ) ownTime[curRec] = ts - ownFirst;
					ownFirst = ownFirst ? 0 : ts;
					return;
				}
				lastTS = ts;
				if ( !firstTS ) firstTS = lastTS;
				if ( endTS >= 0 )
				{
					passTime[endTS] = lastTS - passTS;
					endTS = -1;
				}
			}

			void checkTimer( crg::FramePassTimer & t, std::map< int, uint64_t > & times, int id, std::string const & what, bool recorded = false )
			{
				auto it = times.find( id );
				double expected = it == times.end() ? 0.0 : double( it->second ) * double( drv.props.limits.timestampPeriod );
				if ( it != times.end() ) times.erase( it );
				t.retrieveGpuTime();
				stats.add( "GPU times checked" );
				if ( expected ) stats.add( "GPU times of executions checked" );
				double got = double( t.getGpuTime().count() );
				// A pass which was recorded since its last execution may have no time to give.
				if ( recorded && got == 0.0 ) return;
				if ( std::abs( got - expected ) > 2.0 + expected * 1e-5 )
					drv.viol( "time", expected ? "gpu-time" : "gpu-time-stale", "the GPU time of " + what + " is " + std::to_string( got ) + " ns instead of " + std::to_string( expected ) );
			}

			// Time spent in a callback of a pass, on the clock the library reads.
			void spend( int id )
			{
				if ( !prof.pTimers ) return;
				auto ns = 1000u + rng.below( 1000000u );
				g_clockOffset += ns;
				passCpu[id] += ns;
				if ( inRun ) graphCpu[passes[id].graph] += ns;   // not when a reset records a pass alone
			}

			void checkCpu( crg::FramePassTimer & t, uint64_t expected, std::string const & what )
			{
				stats.add( "CPU times checked" );
				if ( uint64_t( t.getCpuTime().count() ) != expected )
					drv.viol( "time", "cpu-time", "the CPU time of " + what + " is " + std::to_string( t.getCpuTime().count() ) + " ns, " + std::to_string( expected ) + " were spent" );
			}

			void checkTimers( int g, bool recorded = false )
			{
				for ( auto id : graphs[g].passes )
				{
					auto & p = passes[id];
					if ( !p.run || !rng.chance( prof.pTimers ) ) continue;
					auto & t = p.run->getTimer();
					auto what = "pass " + passStr( id );
					checkCpu( t, passCpu[id], what );
					checkTimer( t, passTime, id, what, recorded );
					if ( rng.chance( 30 ) ) checkTimer( t, passTime, id, what, recorded );
					checkCpu( t, passCpu[id], what );
					if ( rng.chance( 20 ) )
					{
						t.reset();
						passCpu[id] = 0;
						stats.add( "timers reset" );
						if ( t.getCpuTime().count() || t.getGpuTime().count() )
							drv.viol( "time", "reset", "the times of " + what + " are not zero after a reset" );
					}
				}
				for ( auto & [id, own] : ownTimers )
					if ( passes[id].graph == g && rng.chance( prof.pTimers ) )
					{
						checkTimer( *own, ownTime, id, "own timer of pass " + passStr( id ), recorded );
						checkCpu( *own, ownCpu[id], "own timer of pass " + passStr( id ) );
						stats.add( "own timers checked" );
					}
				auto & t = graphs[g].runnable->getTimer();
				if ( rng.chance( prof.pTimers ) ) checkTimer( t, graphTime, g, "graph " + std::to_string( g ), recorded );
				checkCpu( t, graphCpu[g], "graph " + std::to_string( g ) );
			}

			// Makes a run fail at various device calls, before the real one: the failures are reported,
			// submit nothing, and leave the graph able to run.
			void runFaults( int g, crg::SemaphoreWaitArray const & waits )
			{
				auto & G = graphs[g];
				for ( int n = 0; n < 14; ++n )
				{
					auto k = 1 + int64_t( rng.below( n % 3 ? 8 : 30 ) );
					auto before = drv.submits.size();
					drv.failAt = drv.fallible + k;
					drv.failCode = rng.chance( 50 ) ? VK_ERROR_OUT_OF_DEVICE_MEMORY : VK_ERROR_OUT_OF_HOST_MEMORY;
					drv.failSubmit = true;
					drv.firstFailed.clear();
					drv.failedCall.clear();
					bool thrown{};
					try
					{
						G.runnable->run( waits, VkQueue( 0x77 ) );
					}
					catch ( crg::Exception & )
					{
						thrown = true;
					}
					drv.failAt = -1;
					drv.failSubmit = false;
					if ( drv.failedCall.empty() == false && !drv.firstFailed.empty() && drv.firstFailed != "vkQueueSubmit" && drv.failedCall == "vkQueueSubmit" )
					{
						drv.viol( "fault", "run-unreported:" + drv.firstFailed, "the failure of " + drv.firstFailed + " in a run does not prevent its submission" );
						break;
					}
					if ( drv.failedCall.empty() ) { drv.viol( "fault", "run-not-reached", "a run makes fewer device calls than expected" ); break; }
					stats.add( "failures injected in runs" );
					stats.add( "failures injected in " + drv.failedCall );
					if ( !thrown ) { drv.viol( "fault", "run-unreported:" + drv.failedCall, "the failure of " + drv.failedCall + " in a run is not reported" ); break; }
					if ( drv.submits.size() != before ) drv.viol( "fault", "run-submitted:" + drv.failedCall, "a run which failed because of " + drv.failedCall + " was submitted" );
					if ( drv.failedCall == "vkQueueSubmit" && rng.chance( 40 ) ) break;
				}
				events.clear();
			}

			// A graph is recorded, for other indices and enabled passes, and this is not submitted: nothing happened.
			void recordOnly( int g )
			{
				std::vector< std::pair< bool, uint32_t > > saved;
				for ( auto & p : passes )
				{
					saved.emplace_back( p.enabled, p.index );
					if ( p.graph != g ) continue;
					if ( p.toggles ) p.enabled = rng.chance( 60 );
					p.index = rng.below( p.maxPass );
				}
				curGraph = g;
				drv.context = [this, g]{ return "seed " + std::to_string( seed ) + " profile " + prof.name + " frame " + std::to_string( frame ) + " graph " + std::to_string( g ) + " recorded only"; };
				auto before = drv.submits.size();
				{
					LibScope lib;
					graphs[g].runnable->record();
				}
				stats.add( "recordings without submission" );
				if ( drv.submits.size() != before ) drv.viol( "submit", "record-submits", "recording a graph submits it" );
				for ( size_t i = 0; i < passes.size(); ++i ) std::tie( passes[i].enabled, passes[i].index ) = saved[i];
			}

			// The graphs are compiled anew, with new images and without the history of the previous ones.
			void recompile()
			{
				drv.completeAll();
				for ( int g = int( graphs.size() ) - 1; g >= 0; --g ) forgetCompile( g );
				for ( auto & im : imgs )
					if ( !im.external )
						std::fill( im.model.begin(), im.model.end(), 0 );
				shakeHeap();
				for ( auto & G : graphs ) if ( !G.passes.empty() ) G.runnable = G.graph->compile( *ctx );
				stats.add( "recompilations" );
			}

			void runGraph( int g, crg::SemaphoreWaitArray & waits )
			{
				firstTS = 0;
				endTS = -1;
				curGraph = g;
				auto & G = graphs[g];
				events.clear();
				impSeen.clear();
				drv.resetSync();
				drv.context = [this, g]{ return "seed " + std::to_string( seed ) + " profile " + prof.name + " frame " + std::to_string( frame ) + " graph " + std::to_string( g ); };
				auto before = drv.submits.size();
				inRun = true;
				if ( prof.faults && frame < 2 ) runFaults( g, waits );
				// Other semaphores to wait for, several times or null some of them.
				if ( rng.chance( 25 ) )
				{
					auto n = 1 + rng.below( 3 );
					for ( uint32_t i = 0; i < n; ++i )
					{
						static VkPipelineStageFlags const masks[]{ VK_PIPELINE_STAGE_TRANSFER_BIT, VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT, VK_PIPELINE_STAGE_VERTEX_INPUT_BIT | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT };
						auto mask = masks[rng.below( 4 )];
						auto at = waits.begin() + rng.below( uint32_t( waits.size() ) + 1 );
						if ( rng.chance( 20 ) ) waits.insert( at, crg::SemaphoreWait{ nullptr, mask } );
						else if ( waits.size() && rng.chance( 25 ) )
						{
							auto s = waits[rng.below( uint32_t( waits.size() ) )].semaphore;
							waits.insert( at, crg::SemaphoreWait{ s, mask } );
						}
						else waits.insert( at, crg::SemaphoreWait{ drv.makeSemaphore( true ), mask } );
					}
					stats.add( "runs with semaphores of the application" );
				}
				std::map< VkSemaphore, VkPipelineStageFlags > wanted;
				for ( auto & x : waits ) if ( x.semaphore ) wanted[x.semaphore] |= x.dstStageMask;
				auto queue = VkQueue( uintptr_t( 0x77 + rng.below( 2 ) ) );
				crg::SemaphoreWaitArray out;
				shakeHeap();
				auto choice = rng.below( 100 );
				auto lib = std::make_unique< LibScope >();
				if ( waits.empty() && choice < 60 ) { out = G.runnable->run( queue ); stats.add( "runs without semaphore" ); }
				else if ( waits.size() == 1 && choice < 60 ) { out = G.runnable->run( waits[0], queue ); stats.add( "runs with one semaphore" ); }
				else out = G.runnable->run( waits, queue );
				lib.reset();
				inRun = false;
				if ( drv.submits.size() != before + 1 )
					drv.viol( "submit", "submit-count", "a run submitted " + std::to_string( drv.submits.size() - before ) + " times" );
				else
				{
					auto & s = drv.submits.back();
					if ( s.cbs.size() != 1 ) drv.viol( "submit", "submit-cmdbufs", "a run submitted " + std::to_string( s.cbs.size() ) + " command buffers" );
					if ( out.size() != 1 || s.signals.size() != 1 || out[0].semaphore != s.signals[0] )
						drv.viol( "submit", "submit-signal", "the semaphore returned by run is not the one its submission signals" );
					std::map< VkSemaphore, VkPipelineStageFlags > got;
					for ( size_t i = 0; i < s.waits.size(); ++i ) got[s.waits[i]] |= s.waitStages[i];
					bool same = got.size() == wanted.size() && got.size() == s.waits.size();
					for ( auto & [x, m] : wanted ) same = same && got.count( x );
					if ( !same ) drv.viol( "submit", "submit-waits", "a run does not wait for exactly the semaphores it was given" );
					else
						for ( auto & [x, m] : wanted )
							if ( ( got[x] & m ) != m && !( got[x] & VK_PIPELINE_STAGE_ALL_COMMANDS_BIT ) )
								drv.viol( "submit", "submit-wait-stages", "a run does not wait for a semaphore at all the stages it was given" );
					if ( s.queue != queue ) drv.viol( "submit", "submit-queue", "a run is submitted to another queue than the given one" );
				}
				waits = out;
				if ( lastTS != firstTS ) graphTime[g] = lastTS - firstTS;
				if ( prof.pTimers ) checkTimers( g );
				checkOrder( g );
				checkImplicit( g );
				checkFinalStates( g );
				checkOutputs( g );
			}

			void print()
			{
				printf( "seed %llu profile %s: %zu graphs %zu images %zu buffers %zu passes\n", ( unsigned long long )seed, prof.name.c_str(), graphs.size(), imgs.size(), bufs.size(), passes.size() );
				for ( auto & i : imgs )
					printf( "  %s fmt %d type %d %ux%ux%u mips %u layers %u part %d ext %d(%s) graph %d\n", i.data.name.c_str(), i.data.info.format, i.data.info.imageType, i.data.info.extent.width, i.data.info.extent.height, i.data.info.extent.depth, i.M, i.L, i.part, i.external, layoutName( i.extLayout ), i.graph );
				for ( size_t k = 0; k < passes.size(); ++k )
				{
					auto & p = passes[k];
					printf( "  %s g%d %s%s max %u toggles %d created %d deps", p.name.c_str(), p.graph, kindName( p.kind ), p.compute ? "/c" : "", p.maxPass, p.toggles, p.createdAt );
					for ( auto d : p.deps ) printf( " %d", d );
					printf( "\n" );
					for ( auto & a : p.atts )
					{
						printf( "      %s", useName( a.use ) );
						for ( auto v : a.views )
						{
							auto & x = views[v];
							printf( " [v%d %s a%u m%u+%u l%u+%u t%d]", v, imgs[x.img].data.name.c_str(), x.range.aspectMask, x.range.baseMipLevel, x.range.levelCount, x.range.baseArrayLayer, x.range.layerCount, x.type );
						}
						if ( a.use == Use::Impl ) printf( " -> %s", layoutName( a.wanted ) );
						printf( "\n" );
					}
					for ( auto & a : p.bufs )
					{
						printf( "      %s", buseName( a.use ) );
						for ( auto b : a.bufs ) printf( " buf%d", b );
						printf( " [%llu, %lld)\n", ( unsigned long long )a.off, ( long long )a.size );
					}
				}
				for ( auto & g : graphs ) for ( auto & [v, l] : g.outputs ) printf( "  output v%d %s\n", v, layoutName( l ) );
			}

			Result run()
			{
				g_clockFrozen = false;
				drv.separateDS = prof.separateDS;
				drv.checkSync = prof.sync;
				drv.traceCmds = verbose;
				drv.hcfg.highBits = prof.highBits && rng.chance( 50 );
				if ( variant )
				{
					if ( variant->ownHandles ) drv.hcfg = variant->handles;
					drv.logStream = variant->log;
					drv.logKinds = variant->period != 0;
					if ( variant->period )
					{
						prof.frames = 1 + variant->period * variant->periods;
						prof.pRecompile = 0;
						prof.faults = false;
					}
					noise.s = variant->heapNoise;
				}
				drv.onMarker = [this]( Exec & e, Cmd const & c ){ onMarker( e, c ); };
				drv.onCmd = [this]( Exec & e, Cmd const & c )
				{
					if ( prof.pTimers ) onTimestamp( c );
					onDraw( e, c );
				};
				if ( prof.pTimers )
				{
					g_clockFrozen = true;
					static float const periods[]{ 1.0f, 0.5f, 52.08f, 10.0f };
					static uint64_t const ticks[]{ 3, 1001, 70000001, 5000000000ull };
					drv.props.limits.timestampPeriod = periods[rng.below( 4 )];
					drv.cmdTicks = ticks[rng.below( 4 )];
				}
				drv.watchLog = !variant;
				drv.context = [this]{ return "seed " + std::to_string( seed ) + " profile " + prof.name; };
				Result res;
				{
					meshVB = drv.makeBuffer( 4096, "meshVB" );
					ctx = std::make_unique< crg::GraphContext >( VkDevice( 0x11 ), VkPipelineCache{}, nullptr, drv.memProps, drv.props, prof.separateDS, &getProc );
					buildGraphs();
					buildPasses();
					declareExternals();
					declareOutputs();
					if ( verbose ) print();
					for ( size_t g = 0; g < graphs.size(); ++g )
					{
						for ( auto d : graphs[g].deps ) graphs[g].graph->addDependency( *graphs[d].graph );
					}
					for ( size_t g = 0; g < graphs.size(); ++g )
						if ( !graphs[g].passes.empty() )
						{
							if ( prof.faults ) compileFaults( int( g ) );
							shakeHeap();
							graphs[g].runnable = graphs[g].graph->compile( *ctx );
						}
					for ( auto & im : imgs )
						if ( !graphs[im.graph].runnable )
							for ( size_t g = 0; g < graphs.size(); ++g ) if ( graphs[g].runnable ) im.graph = int( g );
					for ( frame = 0; frame < int( prof.frames ); ++frame )
					{
						if ( variant && variant->period && frame && ( frame - 1 ) % int( variant->period ) == 0 )
						{
							// the same choices again
							if ( frame == 1 ) { periodRng = rng; libHeapStart(); }
							else rng = periodRng;
							drv.stream.clear();
						}
						if ( frame )
							for ( auto & p : passes )
							{
								if ( p.toggles ) p.enabled = rng.chance( 60 );
								p.index = rng.below( p.maxPass );
							}
						if ( prof.pDraw && frame ) changeDraws();
						if ( prof.pReset && ( frame || rng.chance( 30 ) ) ) resetSome();
						if ( prof.pReset && ( frame || rng.chance( 30 ) ) ) reRecordSome();
						if ( prof.pReset && prof.pTimers && rng.chance( 30 ) )
							for ( size_t g = 0; g < graphs.size(); ++g ) if ( graphs[g].runnable ) checkTimers( int( g ), true );
						if ( frame && rng.chance( prof.pRecompile ) ) recompile();
						feedExternals();
						crg::SemaphoreWaitArray waits;
						for ( size_t g = 0; g < graphs.size(); ++g )
						{
							if ( !graphs[g].runnable ) continue;
							if ( rng.chance( prof.pExtraRecord ) ) recordOnly( int( g ) );
							runGraph( int( g ), waits );
						}
						for ( auto & w : waits ) drv.consumeSemaphore( w.semaphore );
						if ( variant && variant->period && frame && frame % int( variant->period ) == 0 )
						{
							Variant::Period p;
							p.stream = std::move( drv.stream );
							drv.stream.clear();
							for ( auto & [h, o] : drv.objs ) if ( o->alive && !o->external ) ++p.live[typeName( o->type )];
							p.heap = libHeap();
							variant->seen.push_back( std::move( p ) );
						}
					}
					if ( variant && variant->period ) libHeapStop();
					stats.add( "frames", prof.frames );
					stats.add( "passes", passes.size() );
					if ( verbose )
						for ( auto & v : drv.viols ) printf( "  !! %s %s: %s\n", v.cat.c_str(), v.sig.c_str(), v.msg.c_str() );
					drv.completeAll();
					for ( auto it = graphs.rbegin(); it != graphs.rend(); ++it ) it->runnable.reset();
					auto owned = ownTimers.size();
					ownTimers.clear();
					if ( ownDestroyed.size() != owned ) drv.viol( "time", "on-destroy", "the destruction of a timer is not notified" );
					ownConnections.clear();
					ctx->delQueue.clear( *ctx );
					for ( auto it = graphs.rbegin(); it != graphs.rend(); ++it ) it->graph.reset();
					handler.reset();
					auto said = captureStderr( [this]{ ctx.reset(); } );
					checkReports( said );
					drv.checkLeaks( "after everything was destroyed" );
				}
				stats.add( "commands replayed", drv.cmdsReplayed );
				stats.add( "barriers replayed", drv.barriersReplayed );
				stats.add( "subresource checks", drv.subChecks );
				res.viols = drv.viols;
				res.nontrivial = passes.size() > 1;
				uint64_t h = eventHash;
				std::string sum = std::to_string( graphs.size() ) + " graphs, " + std::to_string( imgs.size() ) + " images, " + std::to_string( bufs.size() ) + " buffers, " + std::to_string( prof.frames ) + " frames:";
				for ( auto & p : passes )
				{
					h = mix( h, uint64_t( p.kind ) * 16 + p.maxPass );
					sum += " " + p.name + "=" + kindName( p.kind ) + "(";
					for ( auto & a : p.atts )
					{
						auto & v = views[a.views[0]];
						h = mix( h, mix( uint64_t( a.use ) * 64 + v.range.baseMipLevel * 8 + v.range.levelCount, uint64_t( v.img ) * 64 + v.range.baseArrayLayer * 8 + v.range.layerCount ) );
						sum += std::string( useName( a.use ) ) + ":" + imgs[v.img].data.name + " ";
					}
					for ( auto & a : p.bufs )
					{
						h = mix( h, uint64_t( a.use ) * 64 + uint64_t( a.bufs[0] ) );
						sum += std::string( buseName( a.use ) ) + ":buf" + std::to_string( a.bufs[0] ) + " ";
					}
					if ( sum.back() == ' ' ) sum.pop_back();
					sum += ")";
					for ( auto d : p.deps ) sum += "<-p" + std::to_string( d );
				}
				sum += "; executed";
				for ( auto & ev : events ) if ( ev.kind == M_Pre ) sum += " p" + std::to_string( ev.pass );
				res.summary = sum;
				res.shape = h;
				return res;
			}
		};
	}

	Result runWorld( uint64_t seed, Profile const & profile, Stats & stats, bool verbose, Variant * variant )
	{
		World w{ seed, profile, stats, verbose };
		w.variant = variant;
		try
		{
			auto r = w.run();
			if ( variant ) variant->stream = std::move( w.drv.stream );
			return r;
		}
		catch ( std::exception const & e )
		{
			Result r;
			r.viols = w.drv.viols;
			r.viols.push_back( { "exception", "exception", std::string( "unexpected exception: " ) + e.what() + " [seed " + std::to_string( seed ) + " profile " + profile.name + "]" } );
			return r;
		}
	}
}
