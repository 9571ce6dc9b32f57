// Random worlds of frame graphs, run on the real library over the mock driver,
// with a logical model of what the user was promised.
#pragma once
#include "heap.hpp"
#include "mock.hpp"

#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/FramePassGroup.hpp>
#include <RenderGraph/GraphContext.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
#include <RenderGraph/ResourceHandler.hpp>
#include <RenderGraph/RunnableGraph.hpp>
#include <RenderGraph/RunnablePass.hpp>
#include <RenderGraph/RunnablePasses/BufferCopy.hpp>
#include <RenderGraph/RunnablePasses/BufferToImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ComputePass.hpp>
#include <RenderGraph/RunnablePasses/GenerateMipmaps.hpp>
#include <RenderGraph/RunnablePasses/ImageBlit.hpp>
#include <RenderGraph/RunnablePasses/ImageCopy.hpp>
#include <RenderGraph/RunnablePasses/ImageToBufferCopy.hpp>
#include <RenderGraph/RunnablePasses/RenderMesh.hpp>
#include <RenderGraph/RunnablePasses/RenderPass.hpp>
#include <RenderGraph/RunnablePasses/RenderQuad.hpp>

namespace mon
{
	struct Rng
	{
		uint64_t s;
		explicit Rng( uint64_t seed ) : s{ seed ^ 0x5851F42D4C957F2DULL }
		{
			// two scrambled draws, so that the streams of neighbour seeds do not overlap
			auto a = next();
			s ^= a * 0xD1342543DE82EF95ULL;
			s = next() ^ ( seed << 32 );
		}
		uint64_t next()
		{
			uint64_t z = ( s += 0x9E3779B97F4A7C15ULL );
			z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ULL;
			z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBULL;
			return z ^ ( z >> 31 );
		}
		uint32_t below( uint32_t n ) { return n ? uint32_t( next() % n ) : 0u; }
		uint32_t range( uint32_t a, uint32_t b ) { return a + below( b - a + 1 ); }
		bool chance( uint32_t percent ) { return below( 100 ) < percent; }
		template< typename C > auto & pick( C & c ) { return c[below( uint32_t( c.size() ) )]; }
		template< typename C > void shuffle( C & c ) { for ( size_t i = c.size(); i > 1; --i ) std::swap( c[i - 1], c[below( uint32_t( i ) )] ); }
	};

	enum class Use : uint8_t
	{
		Sampled, StIn, StOut, StClr, StIO, TrIn, TrOut, TrIO, Impl
		, CIn, CIO, COut, DIn, DIO, DOut, DSIn, DSIO, DSOut, SIn, SIO, SOut
	};
	enum class BUse : uint8_t { Uniform, StIn, StOut, StClr, StIO, TrIn, TrOut, TrIO, Impl, UniformV, StInV, StOutV, StClrV, StIOV };
	enum class PK : uint8_t { Raw, RenderPass, Quad, Mesh, Compute, Copy, Blit, BufCopy, B2I, I2B, Mips };
	enum MarkerKind { M_Pre = 1, M_Rec, M_Post, M_ImpBegin, M_ImpEnd, M_End };

	bool isRP( Use u );
	bool reads( Use u );
	bool writes( Use u );
	bool reads( BUse u );
	bool writes( BUse u );
	char const * useName( Use u );
	char const * buseName( BUse u );
	char const * kindName( PK k );
	VkImageLayout declaredLayout( Use u, bool separateDS, VkImageLayout wanted );

	struct Profile
	{
		std::string name{ "core" };
		uint32_t minPass{ 2 }, maxPass{ 8 };
		uint32_t minImg{ 2 }, maxImg{ 5 };
		uint32_t minBuf{ 0 }, maxBuf{ 3 };
		uint32_t frames{ 2 };
		uint32_t pRaw{ 60 }, pRP{ 0 }, pQuad{ 0 }, pMesh{ 0 }, pCompute{ 0 }, pXfer{ 0 }, pMips{ 0 };
		uint32_t pSamples{ 0 }, pDS{ 0 }, p3D{ 10 }, pExternal{ 30 }, pOutput{ 30 }, pHistory{ 10 };
		uint32_t pMulti{ 0 };        // multi index passes
		uint32_t pToggle{ 0 }, pImplicit{ 0 };
		uint32_t minGraphs{ 1 }, maxGraphs{ 1 };
		bool shareAll{ false };      // every image belongs to the first graph
		bool siblings{ false };      // graphs do not depend on all of the previous ones
		uint32_t pMips2{ 50 };       // images with several mip levels
		uint32_t pMerged{ 0 };
		bool separateDS{ false };
		bool sync{ false };
		bool highBits{ false };
		uint32_t pMinimalDeps{ 50 };
		uint32_t pExtraRecord{ 0 };
		uint32_t pReset{ 0 };
		uint32_t pTimers{ 0 };
		bool faults{ false };        // device calls fail while the graphs are compiled
		uint32_t pTransitions{ 30 };
		bool whole{ false };         // whole resource views / buffers only
		uint32_t pDraw{ 0 };         // passes with their own draw parameters
		uint32_t pRecompile{ 0 };    // graphs are compiled anew between frames
	};
	Profile profileByName( std::string const & name );
	std::vector< std::string > profileNames();

	struct Stats
	{
		std::map< std::string, uint64_t > n;
		std::set< uint64_t > shapes;    // hash of the observed event stream
		void add( std::string const & k, uint64_t v = 1 ) { n[k] += v; }
	};

	struct Result
	{
		std::vector< Violation > viols;
		bool nontrivial{};
		uint64_t shape{};
		std::string summary;
	};

	struct ImgSpec
	{
		crg::ImageData data;
		crg::ImageId id;
		bool external{};
		bool part{};                // partitioned: can be used as render pass input
		bool ds{}, hasD{}, hasS{};
		uint32_t L{}, M{}, A{};
		int graph{};                // creating graph
		bool shared{};
		VkImageLayout extLayout{};
		std::vector< uint8_t > defd;
		std::vector< uint64_t > model;
		std::vector< std::set< int > > writersOf, readersOf;
		VkImageAspectFlags aspects{};
		uint32_t cells()const { return A * L * M; }
		uint32_t cell( uint32_t a, uint32_t l, uint32_t m )const { return ( a * L + l ) * M + m; }
	};

	struct ViewSpec
	{
		int img{};
		VkImageSubresourceRange range{};
		VkImageViewType type{};
		VkFormat format{};
		crg::ImageViewId id;
		std::vector< uint32_t > cells;
		std::vector< int > merged;
	};

	struct BufferSpec
	{
		VkDeviceSize size{};
		VkBuffer h{};
		VkBufferView view{};
		std::string name;
		std::vector< uint8_t > defd;
		std::vector< uint64_t > model;
		std::vector< std::set< int > > writersOf, readersOf;
		crg::AccessState last{};
		bool touched{};
	};

	struct AttSpec
	{
		Use use{};
		std::vector< int > views;
		uint32_t binding{};
		VkClearValue clear{};
		VkPipelineColorBlendAttachmentState blend{ crg::DefaultBlendState };
		VkImageLayout wanted{};
		crg::SamplerDesc sampler;
		int view( uint32_t i )const { return views.size() == 1 ? views[0] : views[i]; }
	};

	struct BAttSpec
	{
		BUse use{};
		std::vector< int > bufs;
		VkDeviceSize off{}, size{};
		uint32_t binding{};
		crg::AccessState wanted{};
		int buf( uint32_t i )const { return bufs.size() == 1 ? bufs[0] : bufs[i]; }
	};

	// What a quad, mesh or compute pass draws or dispatches
	struct DrawSpec
	{
		bool on{};
		uint32_t inst{ 1 }, prim{ 1 }, vert{ 1 }, grp[3]{ 1, 1, 1 };
		bool cb[3]{};
		VkOffset2D pos{};
		VkExtent2D size{};
		VkPipelineDepthStencilStateCreateInfo ds{ VK_STRUCTURE_TYPE_PIPELINE_DEPTH_STENCIL_STATE_CREATE_INFO };
		VkCullModeFlags cull{ VK_CULL_MODE_NONE };
		VkIndexType it{ VK_INDEX_TYPE_UINT32 };
		crg::VkBufferArray vb, ib, ind;
		VkDeviceSize indOff{};
		uint32_t indStride{};
		std::vector< VkVertexInputAttributeDescription > attribs;
		std::vector< VkVertexInputBindingDescription > bindings;
		std::vector< VkDescriptorSetLayout > layouts;
		std::vector< VkPushConstantRange > push;
		bool texcoord{}, invU{}, invV{};
		bool end{};
	};

	struct PassSpec
	{
		PK kind{};
		int graph{};
		std::string name;
		std::vector< AttSpec > atts;
		std::vector< BAttSpec > bufs;
		uint32_t maxPass{ 1 };
		bool compute{};
		std::set< int > deps;
		bool toggles{};
		int implicitAtt{ -1 };     // attachment index with an implicit action when disabled
		int implicitKind{};        // 0 clear, 1 copy
		int implicitSrc{ -1 };
		VkImageLayout implicitFinal{};
		VkClearValue implicitClear{};
		// transfer parameters
		VkExtent3D ext{};
		VkOffset3D so{}, dof{};
		VkExtent3D se{}, de{};
		VkFilter filter{};
		VkFilter implicitFilter{};
		VkImageLayout finalLayout{};
		VkDeviceSize copyOff{}, copySize{};
		bool resettable{};
		DrawSpec draw;
		// runtime
		bool enabled{ true };
		uint32_t index{};
		crg::FramePass * pass{};
		crg::RunnablePass * run{};
		int createdAt{ -1 };
		std::vector< uint32_t > initialised;
		std::vector< std::vector< VkShaderModule > > programs;   // one, or one per index
		bool programsFixed{};
	};

	struct GraphSpec
	{
		std::unique_ptr< crg::FrameGraph > graph;
		crg::RunnableGraphPtr runnable;
		std::vector< int > deps;
		std::set< int > closure;       // itself and all it depends on
		std::vector< int > passes;
		std::vector< int > order;      // creation order of the runnable passes
		std::vector< crg::FramePassGroup * > groups;
		std::map< int, VkImageLayout > outputs;  // view -> layout
	};

	// How a world is run, without changing what it declares and does.
	struct Variant
	{
		HandleCfg handles{};
		bool ownHandles{};                    // use the handles above
		uint64_t heapNoise{};                 // seed of the allocations made around those of the library
		crg::ResourceHandler * handler{};     // shared with other worlds
		std::vector< std::string > stream;    // the calls made
		bool log{};
		// the choices of the frames repeat every so many frames
		uint32_t period{}, periods{};
		struct Period
		{
			std::vector< std::string > stream;
			std::map< std::string, int > live;   // objects of the library
			LibHeap heap;
		};
		std::vector< Period > seen;
	};
	Result runWorld( uint64_t seed, Profile const & profile, Stats & stats, bool verbose, Variant * variant = nullptr );
}
