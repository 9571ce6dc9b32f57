#include "cases.hpp"

namespace mon
{
	void signalCase( Case & c );
	void cacheCase( Case & c );
	void storeCase( Case & c );
	void nodesCase( Case & c );
	void tablesCase( Case & c );
	void repeatCase( Case & c );
	void steadyCase( Case & c );
	void threadsCase( Case & c );
	void debugCase( Case & c );

	std::vector< Monitor > const & monitors()
	{
		static std::vector< Monitor > const list
		{
			{ "signal", signalCase },
			{ "cache", cacheCase },
			{ "store", storeCase },
			{ "nodes", nodesCase },
			{ "tables", tablesCase },
			{ "repeat", repeatCase },
			{ "steady", steadyCase },
			{ "threads", threadsCase },
			{ "debug", debugCase },
		};
		return list;
	}
}
