// A graph which is run again and again, in circumstances which repeat: it asks the device the same
// things, and holds no more of the device's objects, nor of the memory, as time passes.
#include "cases.hpp"

namespace mon
{
	namespace
	{
		// What still changes between the periods: a signature and a message.
		std::vector< std::pair< std::string, std::string > > changes( Variant const & v, size_t early, bool heap, bool alike )
		{
			std::vector< std::pair< std::string, std::string > > out;
			auto & last = v.seen.back();
			auto & first = v.seen[early];
			// the timers use two sets of queries in turn
			auto & ref = v.seen[v.seen.size() - 3];
			for ( auto & [t, n] : last.live )
			{
				auto it = first.live.find( t );
				auto old = it == first.live.end() ? 0 : it->second;
				if ( n != old ) out.emplace_back( "objects:" + t, "the number of " + t + " objects keeps changing: " + std::to_string( old ) + ", then " + std::to_string( n ) );
			}
			// Frames which are all alike use what the first of them made.
			if ( alike )
			{
				// the caller makes the semaphores to wait for, and the modules of the programs it resets
				std::set< std::string > made{ "create Semaphore", "create ShaderModule" };
				if ( std::find( last.stream.begin(), last.stream.end(), "create ShaderModule" ) != last.stream.end() ) made.insert( "create Pipeline" );
				for ( auto & l : last.stream )
					if ( l.compare( 0, 7, "create " ) == 0 && made.insert( l ).second ) out.emplace_back( "again:" + l.substr( 7 ), "a frame like those before it makes a new " + l.substr( 7 ) );
			}
			size_t i = 0;
			while ( i < ref.stream.size() && i < last.stream.size() && ref.stream[i] == last.stream[i] ) ++i;
			if ( i < ref.stream.size() || i < last.stream.size() )
			{
				auto at = [&]( std::vector< std::string > const & s ){ return i < s.size() ? s[i] : std::string( "nothing" ); };
				auto word = at( ref.stream );
				auto b = word.find_first_not_of( ' ' );
				word = word.substr( b, word.find( ' ', b ) - b );
				out.emplace_back( "calls:" + word, "the device calls of repeated frames keep changing: call " + std::to_string( i ) + " is [" + at( last.stream ) + "] instead of [" + at( ref.stream ) + "]" );
			}
			if ( heap && !( last.heap == first.heap ) )
				out.emplace_back( "memory", "the memory held keeps changing: " + std::to_string( first.heap.blocks ) + " blocks of " + std::to_string( first.heap.bytes ) + " bytes, then " + std::to_string( last.heap.blocks ) + " of " + std::to_string( last.heap.bytes ) );
			return out;
		}
	}

	void steadyCase( Case & c )
	{
		static char const * const names[]{ "kinds", "all", "graphs", "again", "merged", "toggle", "multi", "xfer", "rp", "shared", "reset", "rptoggle", "draw", "timers", "sepds" };
		auto prof = profileByName( names[c.rng.below( 15 )] );
		auto seed = c.rng.next() % 1000000007u;
		auto heap = libHeapAvailable();
		Variant v;
		v.log = true;
		v.ownHandles = true;
		v.period = c.rng.range( 1, 3 );
		v.periods = c.rng.range( 7, 10 );
		Stats dummy;
		auto r = runWorld( seed, prof, dummy, c.verbose, &v );
		for ( auto & x : r.viols ) c.viol( x.cat, x.sig, x.msg );
		c.note( mix( r.shape, v.period ) );
		c.summary = r.summary;
		c.nontrivial = r.nontrivial;
		if ( v.seen.size() != v.periods ) return;
		c.stats.add( "repeated frames", v.period * v.periods );
		c.stats.add( "device calls of repeated frames compared", v.seen.back().stream.size() );
		if ( heap )
		{
			c.stats.add( "heaps compared" );
			c.stats.add( "heap blocks of the library", v.seen.back().heap.blocks );
		}
		// A graph which is compiled twice finds what its other runnable did in the meantime.
		auto alike = v.period == 1 && prof.name != "again";
		if ( alike ) c.stats.add( "repeated frames which make nothing" );
		auto found = changes( v, 2, heap, alike );
		if ( !found.empty() )
		{
			// What is known of the resources may take as many periods as there are passes to settle.
			v.seen.clear();
			v.stream.clear();
			v.periods = 100;
			runWorld( seed, prof, dummy, false, &v );
			c.stats.add( "graphs which took more periods to settle" );
			if ( v.seen.size() != v.periods ) return;
			found = changes( v, 45, heap, alike );
		}
		if ( c.verbose )
			for ( auto & p : v.seen )
			{
				printf( "period: %zu calls, heap %zu blocks %zu bytes;", p.stream.size(), p.heap.blocks, p.heap.bytes );
				for ( auto & [t, n] : p.live ) printf( " %s=%d", t.c_str(), n );
				printf( "\n" );
			}
		auto what = " (profile " + prof.name + " seed " + std::to_string( seed ) + ", frames repeating every " + std::to_string( v.period ) + ")";
		for ( auto & [s, m] : found ) c.viol( "steady", s, m + what );
	}
}
