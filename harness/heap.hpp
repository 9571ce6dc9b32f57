// Counts the memory which the library holds: what is allocated while it runs, until it is released.
#pragma once
#include <cstddef>
#include <cstdint>

namespace mon
{
	// The thread is inside the library: what it allocates is the library's.
	struct LibScope
	{
		LibScope();
		~LibScope();
		int saved;
	};
	// The thread left it again, through a callback or a device function.
	struct OutScope
	{
		OutScope();
		~OutScope();
		int saved;
	};
	struct LibHeap
	{
		size_t blocks{}, bytes{};
		bool operator==( LibHeap const & o )const { return blocks == o.blocks && bytes == o.bytes; }
	};
	bool libHeapAvailable();
	void libHeapStart();    // forgets everything
	void libHeapStop();
	LibHeap libHeap();
}
