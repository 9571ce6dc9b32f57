// A Vulkan driver stand-in: every device-level function the library loads is
// implemented here over an object table, so that the real library code runs
// unmodified and every call it makes is an observable event.
#pragma once

#include <vulkan/vulkan.h>

#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace mon
{
	enum class T : uint8_t
	{
		None, Buffer, Image, ImageView, BufferView, Memory, Sampler, Pipeline, PipelineLayout, DSLayout, DPool, DSet,
		RenderPass, Framebuffer, CmdPool, CmdBuf, Semaphore, Fence, Event, QueryPool, ShaderModule, Count
	};
	char const * typeName( T t );

	struct Violation
	{
		std::string cat;
		std::string sig;
		std::string msg;
	};

	// One cell of synchronisation state (an image subresource aspect, or a buffer granule).
	struct SyncCell
	{
		bool written{};
		VkPipelineStageFlags wStage{};
		VkAccessFlags wAccess{};
		bool wAvailable{};
		VkPipelineStageFlags wChain{};                // stages ordered after the write
		std::vector< std::pair< VkPipelineStageFlags, VkAccessFlags > > visible;
		struct Read
		{
			VkPipelineStageFlags stage{};
			VkPipelineStageFlags chain{};             // stages ordered after the read
			std::string who;
		};
		std::vector< Read > reads;                    // since the last write
		std::string writer;
	};

	struct Sub
	{
		VkImageLayout layout{ VK_IMAGE_LAYOUT_UNDEFINED };
		uint64_t content{};
		SyncCell sync;
	};

	struct RPInfo
	{
		std::vector< VkAttachmentDescription > attaches;
		std::vector< VkAttachmentReference > colours;
		bool hasDepth{};
		VkAttachmentReference depth{};
		std::vector< VkSubpassDependency > deps;
	};

	struct Binding
	{
		VkDescriptorSetLayoutBinding b{};
	};

	struct DescWrite
	{
		VkDescriptorType type{};
		uint32_t element{};
		VkDescriptorImageInfo img{};
		VkDescriptorBufferInfo buf{};
		VkBufferView texel{};
	};

	struct PipeInfo
	{
		bool compute{};
		VkPipelineLayout layout{};
		VkRenderPass rp{};
		RPInfo rpCopy;
		std::vector< VkPipelineColorBlendAttachmentState > blends;
		std::vector< VkViewport > viewports;
		std::vector< VkRect2D > scissors;
		VkPrimitiveTopology topology{};
		VkCullModeFlags cull{};
		VkPipelineDepthStencilStateCreateInfo ds{};
		bool hasDS{};
		std::vector< VkShaderModule > modules;
		std::vector< std::string > entries;
		VkPipelineVertexInputStateCreateInfo vi{};
		std::vector< VkVertexInputBindingDescription > viBindings;
		std::vector< VkVertexInputAttributeDescription > viAttribs;
		VkSampleCountFlagBits samples{ VK_SAMPLE_COUNT_1_BIT };
	};

	struct Obj
	{
		T type{};
		uint64_t h{};
		bool alive{};
		bool external{};       // created by the harness, not by the library
		uint64_t seq{};
		std::string name;
		uint64_t parent{};     // pool, or viewed image / buffer
		// Image
		VkImageCreateInfo imgCI{};
		std::vector< Sub > subs;
		bool bound{};
		// Buffer
		VkBufferCreateInfo bufCI{};
		std::vector< uint64_t > granContent;
		std::vector< SyncCell > granSync;
		std::vector< uint8_t > bytes;
		// Memory
		VkDeviceSize memSize{};
		bool mapped{};
		std::vector< uint8_t > memBytes;
		uint64_t boundTo{};
		// ImageView
		VkImageViewCreateInfo viewCI{};
		// Sampler
		VkSamplerCreateInfo samplerCI{};
		// RenderPass
		RPInfo rp;
		// Framebuffer
		uint64_t fbRP{};
		std::vector< VkImageView > fbViews;
		uint32_t fbW{}, fbH{}, fbL{};
		RPInfo fbRPCopy;
		// Descriptors
		std::vector< VkDescriptorSetLayoutBinding > bindings;
		std::map< uint32_t, std::vector< DescWrite > > writes;
		uint64_t dsLayout{};
		uint32_t poolMax{}, poolUsed{};
		std::map< uint32_t, int64_t > poolSizes;
		bool poolFreeBit{};
		// Pipeline layout
		std::vector< VkDescriptorSetLayout > setLayouts;
		std::vector< VkPushConstantRange > pushRanges;
		PipeInfo pipe;
		uint32_t createFlags{}; // of a command pool
		// Command buffer
		int cbState{};         // 0 initial 1 recording 2 executable 3 invalid
		std::vector< struct Cmd > cmds;
		uint64_t cbGen{};
		VkCommandBufferUsageFlags cbUsage{};
		int recordCount{};
		// Fence / semaphore
		bool signaled{};
		uint64_t fenceSubmit{};
		// Query pool
		uint32_t queryCount{};
		std::vector< int > queryState;    // 0 unset 1 reset 2 written
		std::vector< uint64_t > queryValue;
	};

	enum class Op : uint8_t
	{
		Barrier, ClearColor, ClearDS, BeginRP, EndRP, BindPipe, BindSets, BindVB, BindIB, Draw, DrawIndexed, DrawIndirect
		, DrawIndexedIndirect, Dispatch, DispatchIndirect, Push, ResetQuery, WriteTS, Blit, CopyBuf, CopyB2I, CopyImg, CopyI2B
		, FillBuf, LabelBegin, LabelEnd, Marker, Other
	};
	char const * opName( Op op );

	struct Cmd
	{
		Op op{};
		std::vector< VkImageMemoryBarrier > imgB;
		std::vector< VkBufferMemoryBarrier > bufB;
		std::vector< VkMemoryBarrier > memB;
		VkPipelineStageFlags src{}, dst{};
		uint64_t a{}, b{};
		VkImageLayout la{}, lb{};
		std::vector< VkImageSubresourceRange > ranges;
		std::vector< VkClearValue > clears;
		std::vector< VkImageCopy > icopies;
		std::vector< VkImageBlit > blits;
		std::vector< VkBufferCopy > bcopies;
		std::vector< VkBufferImageCopy > bicopies;
		VkFilter filter{};
		VkRect2D area{};
		std::vector< uint64_t > handles;
		std::vector< uint64_t > offs;
		std::vector< uint32_t > n;
		int bindPoint{};
		std::string text;
		// marker
		int mkind{};
		int mpass{};
		int mindex{};
		int mextra{};
	};

	struct Submit
	{
		uint64_t id{};
		std::vector< uint64_t > cbs;
		std::vector< VkSemaphore > waits;
		std::vector< VkPipelineStageFlags > waitStages;
		std::vector< VkSemaphore > signals;
		VkFence fence{};
		VkQueue queue{};
		std::set< uint64_t > objs;
		bool done{};
	};

	struct Driver;

	// State of the replay of one command buffer.
	struct Exec
	{
		Driver & d;
		Obj & cb;
		bool inRP{};
		Obj * rp{};
		Obj * fb{};
		RPInfo rpInfo;
		std::vector< VkImageView > views;
		std::vector< VkClearValue > clears;
		VkRect2D area{};
		uint64_t pipe[2]{};
		std::vector< uint64_t > sets[2];
		std::vector< uint64_t > vbs;
		std::vector< uint64_t > vbOffs;
		uint64_t ib{};
		uint64_t ibOff{};
		uint32_t ibType{};
		std::vector< std::string > labels;
		size_t pos{};
		Cmd const * cmd{};
		bool pushed[2]{};
		std::vector< size_t > sinceMarker;
	};

	struct HandleCfg
	{
		bool highBits{};      // handle values which differ in their high 32 bits only
		bool descending{};    // handle values which decrease
		uint64_t base{};      // added to the handle values
	};

	struct Driver
	{
		bool separateDS{};
		bool recordEnabled{ true };
		bool traceCmds{};
		bool checkSync{};
		bool manualGpu{ true };
		HandleCfg hcfg;
		std::vector< Violation > viols;
		std::unordered_map< uint64_t, std::unique_ptr< Obj > > objs;
		std::vector< uint64_t > order;
		uint64_t nextHandle{ 0x1000 };
		uint64_t seq{};
		std::vector< Submit > submits;
		uint64_t nextSubmit{ 1 };
		uint64_t clock{ 1000 };
		uint64_t tickStep{ 7 };
		uint64_t cmdTicks{ 3 };
		// fault injection
		int64_t failAt{ -1 };
		int64_t fallible{};
		bool failSubmit{};
		std::string failedCall;
		std::string firstFailed; // the first call made to fail, since it was cleared
		VkResult failCode{ VK_ERROR_OUT_OF_DEVICE_MEMORY };
		// statistics
		std::map< std::string, uint64_t > calls;
		uint64_t cmdsReplayed{};
		uint64_t barriersReplayed{};
		uint64_t subChecks{};
		uint64_t rulesChecked{};
		// hooks
		std::function< void( Exec &, Cmd const & ) > onMarker;
		std::function< void( Exec &, Cmd const & ) > onCmd;
		std::function< void( Submit const & ) > onSubmit;
		std::vector< std::string > callLog;   // normalised log of calls that create / destroy
		bool logCalls{};
		// every device call, handles being replaced by the rank of their object
		bool logKinds{};      // the stream names the objects by their types
		bool logStream{};
		std::vector< std::string > stream;
		VkPhysicalDeviceProperties props{};
		VkPhysicalDeviceMemoryProperties memProps{};
		uint32_t memTypeBits{ 7 };
		std::map< uint64_t, std::string > debugNames;
		// what the library logs: objects it declares as created and not yet as destroyed
		bool watchLog{};
		uint64_t ownNames{};
		std::map< uint64_t, std::pair< std::string, std::string > > registered;
		std::vector< std::string > errors;
		uint64_t namesChecked{};
		std::vector< std::pair< uint64_t, std::string > > lastName;
		std::vector< std::tuple< int, std::string, bool > > lastLogs;
		void log( int level, std::string const & msg, bool newLine );
		void named( uint64_t h, uint64_t objectType, char const * name );
		void unlisted( uint64_t h, T t );
		int labelImbalance{};
		uint64_t anyMarkerSeen{};
		uint64_t hazardsSeen{};
		uint64_t attachSyncs{};
		std::function< std::string() > context;   // describes what is going on, for messages

		Driver();
		~Driver();
		void viol( std::string cat, std::string sig, std::string msg );
		Obj * get( uint64_t h, T t );
		template< typename H > Obj * find( H h, T t ) { return get( ( uint64_t )h, t ); }
		Obj & create( T t );
		bool fail( char const * call );
		void destroy( uint64_t h, T t, char const * call );
		VkBuffer makeBuffer( VkDeviceSize size, std::string name );
		VkBufferView makeBufferView( VkBuffer buffer );
		VkDescriptorSetLayout makeSetLayout();
		VkShaderModule makeShader( std::string name );
		VkSemaphore makeSemaphore( bool signaled );
		void destroyExternal( uint64_t h );
		void marker( VkCommandBuffer cb, int kind, int pass, int index, int extra = 0 );
		void completeAll();
		void complete( uint64_t upTo );
		void consumeSemaphore( VkSemaphore s );
		void collectObjects( Obj & cb, std::set< uint64_t > & out );
		void structureCheck( Obj & cb );
		void replay( Obj & cb );
		void checkLeaks( char const * when );
		uint32_t aspectCount( Obj const & img )const;
		uint32_t layersOf( Obj const & img )const;
		// calls f( sub, aspectIndex, layer, level )
		void forRange( Obj & img, VkImageSubresourceRange r, std::function< void( Sub &, uint32_t, uint32_t, uint32_t ) > const & f );
		VkImageSubresourceRange viewRange( Obj const & view )const;
		VkImageLayout normLayout( VkImageLayout l, uint32_t aspectIdx, bool hasDepth )const;
		void accessImage( Sub & s, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who, std::string const & what );
		void accessCell( SyncCell & s, VkPipelineStageFlags stage, VkAccessFlags access, bool write, std::string const & who, std::string const & what );
		void transitionCell( SyncCell & s, VkPipelineStageFlags src, VkAccessFlags srcA, VkPipelineStageFlags dst, VkAccessFlags dstA, char const * kind, std::string const & what, std::string const & pos );
		void barrierCell( SyncCell & s, VkPipelineStageFlags src, VkAccessFlags srcA, VkPipelineStageFlags dst, VkAccessFlags dstA );
		void resetSync();
		std::string describe( uint64_t h );
		std::string rank( uint64_t h );
		void logCmds( Obj & cb );
	};

	extern thread_local Driver * g_drv;
	VkObjectType objectType( T t );
	// what f writes to the standard error
	std::string captureStderr( std::function< void() > const & f );
	PFN_vkVoidFunction VKAPI_PTR getProc( VkDevice device, char const * name );
	bool isDepthFmt( VkFormat f );
	bool isStencilFmt( VkFormat f );
	char const * layoutName( VkImageLayout l );
	constexpr VkDeviceSize Granule = 256;
	uint64_t mix( uint64_t a, uint64_t b );
	uint64_t clearToken( bool colour, VkClearValue const & v, uint32_t aspectIdx );
	uint64_t fillToken( uint32_t data );
	VkPipelineStageFlags expandSrc( VkPipelineStageFlags s );
	VkPipelineStageFlags expandDst( VkPipelineStageFlags s );
}
