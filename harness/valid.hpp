#pragma once
#include "mock.hpp"

namespace mon::valid
{
	void buffer( VkBufferCreateInfo const & c );
	void image( VkImageCreateInfo const & c );
	void imageView( VkImageViewCreateInfo const & c, Obj const * img );
	void sampler( VkSamplerCreateInfo const & c );
	void allocate( VkMemoryAllocateInfo const & a );
	void bind( char const * call, Obj const * mem, VkDeviceSize off, VkDeviceSize size );
	void map( Obj const & mem, VkDeviceSize off, VkDeviceSize size, VkMemoryMapFlags flags );
	void flush( uint32_t count, VkMappedMemoryRange const * r );
	void renderPass( VkRenderPassCreateInfo const & c );
	void framebuffer( VkFramebufferCreateInfo const & c, Obj const * rp );
	void setLayout( VkDescriptorSetLayoutCreateInfo const & c );
	void descriptorPool( VkDescriptorPoolCreateInfo const & c );
	void allocateSets( VkDescriptorSetAllocateInfo const & a );
	void write( VkWriteDescriptorSet const & w );
	void pipelineLayout( VkPipelineLayoutCreateInfo const & c );
	void graphics( VkGraphicsPipelineCreateInfo const & c, Obj const * rp );
	void compute( VkComputePipelineCreateInfo const & c );
	void commandPool( VkCommandPoolCreateInfo const & c );
	void allocateCommandBuffers( VkCommandBufferAllocateInfo const & a );
	void simple( char const * call, VkStructureType want, VkStructureType got, void const * next, uint32_t flags, uint32_t allowed );
	void queryPool( VkQueryPoolCreateInfo const & c );
	void queryResults( uint32_t count, size_t size, void const * data, VkDeviceSize stride, VkQueryResultFlags flags );
	void begin( Obj const & cb, VkCommandBufferBeginInfo const & b );
	void resetCb( Obj const & cb, VkCommandBufferResetFlags flags );
	void submit( uint32_t count, VkSubmitInfo const * s );
	void fences( char const * call, uint32_t count, VkFence const * f );
	// the commands of a buffer whose recording ends
	void cmdBuffer( Obj const & cb );
}
