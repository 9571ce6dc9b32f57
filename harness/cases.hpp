// Monitors which are not worlds: each is a function run on one seed.
#pragma once
#include "world.hpp"

namespace mon
{
	struct Case
	{
		uint64_t seed;
		Rng rng;
		Stats & stats;
		bool verbose{};
		std::vector< Violation > viols;
		uint64_t shape{};
		bool nontrivial{ true };
		std::string summary;

		Case( uint64_t s, Stats & st, bool v ) : seed{ s }, rng{ s }, stats{ st }, verbose{ v } {}
		void viol( std::string const & cat, std::string const & sig, std::string const & msg )
		{
			for ( auto & x : viols ) if ( x.cat == cat && x.sig == sig ) return;
			viols.push_back( { cat, sig, msg + " [seed " + std::to_string( seed ) + "]" } );
		}
		void note( uint64_t v ) { shape = mix( shape, v ); }
		void take( Driver const & d ) { for ( auto & v : d.viols ) viol( v.cat, v.sig, v.msg ); }
	};
	using CaseFn = void ( * )( Case & );
	struct Monitor { char const * name; CaseFn fn; };
	std::vector< Monitor > const & monitors();
	Result runCase( std::string const & name, uint64_t seed, Stats & stats, bool verbose );
}
