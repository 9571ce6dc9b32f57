#include "heap.hpp"
#include <unordered_map>
#if defined( __SANITIZE_ADDRESS__ )
#	define MON_HEAP 1
#elif defined( __has_feature )
#	if __has_feature( address_sanitizer )
#		define MON_HEAP 1
#	endif
#endif
#ifdef MON_HEAP
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( *m )( void const volatile *, size_t ), void ( *f )( void const volatile * ) );
#endif

namespace mon
{
	namespace
	{
		thread_local int t_lib{};
		thread_local bool t_hook{};
		thread_local bool t_on{};
		thread_local LibHeap t_heap;
		std::unordered_map< uintptr_t, size_t > & table()
		{
			static thread_local std::unordered_map< uintptr_t, size_t > t;
			return t;
		}
#ifdef MON_HEAP
		void onMalloc( void const volatile * p, size_t n )
		{
			if ( !t_on || !t_lib || t_hook ) return;
			t_hook = true;
			table()[uintptr_t( p )] = n;
			++t_heap.blocks;
			t_heap.bytes += n;
			t_hook = false;
		}
		void onFree( void const volatile * p )
		{
			if ( !t_on || t_hook ) return;
			t_hook = true;
			if ( auto it = table().find( uintptr_t( p ) ); it != table().end() )
			{
				--t_heap.blocks;
				t_heap.bytes -= it->second;
				table().erase( it );
			}
			t_hook = false;
		}
#endif
	}

	LibScope::LibScope() : saved{ t_lib } { t_lib = 1; }
	LibScope::~LibScope() { t_lib = saved; }
	OutScope::OutScope() : saved{ t_lib } { t_lib = 0; }
	OutScope::~OutScope() { t_lib = saved; }

	bool libHeapAvailable()
	{
#ifdef MON_HEAP
		static bool const ok = __sanitizer_install_malloc_and_free_hooks( &onMalloc, &onFree ) != 0;
		return ok;
#else
		return false;
#endif
	}

	void libHeapStart()
	{
		libHeapAvailable();
		t_on = false;
		table().clear();
		t_heap = {};
		t_on = true;
	}
	void libHeapStop() { t_on = false; }
	LibHeap libHeap() { return t_heap; }
}
