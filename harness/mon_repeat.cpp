// The same program, run several times: what the device is asked must not depend on
// addresses, on the values of handles, nor on what else the handler holds.
#include "cases.hpp"
#include <RenderGraph/ResourceHandler.hpp>

namespace mon
{
	namespace
	{
		// Resources of nobody in particular, which shift the identifiers.
		void populate( crg::ResourceHandler & handler, Rng & rng )
		{
			auto n = rng.below( 12 );
			for ( uint32_t i = 0; i < n; ++i )
			{
				auto id = handler.createImageId( crg::ImageData{ "other" + std::to_string( i ), 0u, VK_IMAGE_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { 8u, 8u, 1u }, VK_IMAGE_USAGE_SAMPLED_BIT, 1u, 1u } );
				auto v = rng.below( 4 );
				for ( uint32_t k = 0; k < v; ++k )
					handler.createViewId( crg::ImageViewData{ "otherView" + std::to_string( i ) + std::to_string( k ), id, 0u, VK_IMAGE_VIEW_TYPE_2D, VK_FORMAT_R8G8B8A8_UNORM, { VK_IMAGE_ASPECT_COLOR_BIT, 0u, 1u, 0u, 1u } } );
			}
		}
	}

	void repeatCase( Case & c )
	{
		static char const * const names[]{ "kinds", "all", "graphs", "again", "merged", "toggle", "multi", "xfer", "rp", "shared", "reset" };
		auto prof = profileByName( names[c.rng.below( 11 )] );
		prof.pTimers = 0;
		auto seed = c.rng.next() % 1000000007u;
		Stats dummy;
		Variant first;
		first.log = true;
		first.ownHandles = true;
		auto r = runWorld( seed, prof, dummy, false, &first );
		for ( auto & v : r.viols ) c.viol( v.cat, v.sig, v.msg );
		c.note( r.shape );
		c.summary = r.summary;
		c.nontrivial = r.nontrivial;
		for ( int k = 0; k < 2; ++k )
		{
			crg::ResourceHandler handler;
			Variant other;
			other.log = true;
			other.ownHandles = true;
			other.handles.highBits = c.rng.chance( 40 );
			other.handles.descending = c.rng.chance( 60 );
			other.handles.base = c.rng.chance( 50 ) ? uint64_t( c.rng.below( 1000 ) ) << 30 : 0u;
			other.heapNoise = c.rng.next() | 1u;
			bool shared = c.rng.chance( 50 );
			if ( shared )
			{
				populate( handler, c.rng );
				other.handler = &handler;
				c.stats.add( "worlds run in a handler shared with others" );
			}
			auto r2 = runWorld( seed, prof, dummy, false, &other );
			c.stats.add( "worlds run again" );
			c.stats.add( "device calls compared", first.stream.size() );
			size_t i = 0;
			while ( i < first.stream.size() && i < other.stream.size() && first.stream[i] == other.stream[i] ) ++i;
			if ( i < first.stream.size() || i < other.stream.size() )
			{
				auto at = [&]( std::vector< std::string > const & s ){ return i < s.size() ? s[i] : std::string( "nothing" ); };
				auto word = at( first.stream );
				auto b = word.find_first_not_of( ' ' );
				word = word.substr( b, word.find( ' ', b ) - b );
				c.viol( "repeat", "stream:" + word, "the same program (profile " + prof.name + " seed " + std::to_string( seed ) + ") makes other device calls when it is run again: call " + std::to_string( i ) + " is [" + at( other.stream ) + "] instead of [" + at( first.stream ) + "]" );
			}
			for ( auto & v : r2.viols ) c.viol( v.cat, v.sig, v.msg );
		}
	}
}
