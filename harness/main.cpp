// mon list
// mon run NAME FROM TO PROGRESS   runs cases, prints V / S / H / M lines
// mon one NAME SEED               runs one case verbosely
// mon tri NAME FROM TO            aggregated triage output
#include "cases.hpp"
#include <RenderGraph/Log.hpp>
#include <cstdio>
#include <cstdlib>
#include <cinttypes>
#include <fcntl.h>
#include <string>
#include <unistd.h>

using namespace mon;

namespace mon
{
	Result runCase( std::string const & name, uint64_t seed, Stats & stats, bool verbose )
	{
		for ( auto & m : monitors() )
			if ( name == m.name )
			{
				Case c{ seed, stats, verbose };
				Result r;
				try
				{
					m.fn( c );
				}
				catch ( std::exception const & e )
				{
					c.viol( "exception", "exception:" + name, std::string( "unexpected exception: " ) + e.what() );
				}
				r.viols = c.viols;
				r.nontrivial = c.nontrivial;
				r.shape = c.shape;
				r.summary = c.summary;
				return r;
			}
		for ( auto & p : profileNames() )
			if ( p == name )
				return runWorld( seed, profileByName( p ), stats, verbose );
		fprintf( stderr, "unknown case %s\n", name.c_str() );
		exit( 3 );
	}
}

namespace
{
	std::string clean( std::string s )
	{
		for ( auto & c : s ) if ( c == '\n' || c == '\t' || c == '\r' ) c = ' ';
		return s;
	}
}

int main( int argc, char ** argv )
{
	crg::Logger::setTraceCallback( []( std::string const & m, bool l ){ if ( g_drv ) g_drv->log( 0, m, l ); } );
	crg::Logger::setDebugCallback( []( std::string const & m, bool l ){ if ( g_drv ) g_drv->log( 1, m, l ); } );
	crg::Logger::setInfoCallback( []( std::string const & m, bool l ){ if ( g_drv ) g_drv->log( 2, m, l ); } );
	crg::Logger::setWarningCallback( []( std::string const & m, bool l ){ if ( g_drv ) g_drv->log( 3, m, l ); } );
	crg::Logger::setErrorCallback( []( std::string const & m, bool l ){ if ( g_drv ) g_drv->log( 4, m, l ); } );
	std::string cmd = argc > 1 ? argv[1] : "";
	Stats st;
	if ( cmd == "list" )
	{
		for ( auto & m : monitors() ) printf( "%s\n", m.name );
		for ( auto & p : profileNames() ) printf( "%s\n", p.c_str() );
		return 0;
	}
	if ( cmd == "one" && argc > 3 )
	{
		auto r = runCase( argv[2], strtoull( argv[3], nullptr, 10 ), st, true );
		printf( "%s\n", r.summary.c_str() );
		for ( auto & v : r.viols ) printf( "!! %s %s: %s\n", v.cat.c_str(), v.sig.c_str(), v.msg.c_str() );
		for ( auto & [k, n] : st.n ) printf( "   %s = %" PRIu64 "\n", k.c_str(), n );
		return r.viols.empty() ? 0 : 1;
	}
	if ( cmd == "tri" && argc > 4 )
	{
		std::map< std::string, std::pair< int, std::string > > agg;
		for ( auto s = strtoull( argv[3], nullptr, 10 ); s < strtoull( argv[4], nullptr, 10 ); ++s )
			for ( auto & x : runCase( argv[2], s, st, false ).viols )
			{
				auto & e = agg[x.cat + "|" + x.sig];
				if ( !e.first++ ) e.second = x.msg;
			}
		for ( auto & [k, e] : agg ) printf( "%6d %s : %s\n", e.first, k.c_str(), e.second.c_str() );
		for ( auto & [k, n] : st.n ) printf( "   %s = %" PRIu64 "\n", k.c_str(), n );
		printf( "   distinct = %zu\n", st.shapes.size() );
		return 0;
	}
	if ( cmd == "kill" && argc > 3 )
	{
		// all the cases in turn, until something is reported (to evaluate the monitors)
		std::vector< std::string > names;
		for ( auto & m : monitors() ) names.push_back( m.name );
		for ( auto & p : profileNames() ) names.push_back( p );
		auto to = strtoull( argv[3], nullptr, 10 );
		for ( auto s = strtoull( argv[2], nullptr, 10 ); s < to; ++s )
			for ( auto & n : names )
				for ( auto & v : runCase( n, s, st, false ).viols )
				{
					printf( "%s %" PRIu64 " %s|%s\n", n.c_str(), uint64_t( s ), v.cat.c_str(), v.sig.c_str() );
					return 1;
				}
		return 0;
	}
	if ( cmd == "run" && argc > 5 )
	{
		std::string name = argv[2];
		auto from = strtoull( argv[3], nullptr, 10 ), to = strtoull( argv[4], nullptr, 10 );
		int fd = open( argv[5], O_CREAT | O_TRUNC | O_WRONLY, 0644 );
		std::set< uint64_t > shapes;
		uint64_t nontrivial{}, cases{};
		std::map< std::string, int > seen;
		int samples = 0;
		for ( auto s = from; s < to; ++s )
		{
			char b[32];
			auto n = snprintf( b, sizeof( b ), "%-20" PRIu64 "\n", uint64_t( s ) );
			if ( pwrite( fd, b, size_t( n ), 0 ) != n ) return 3;
			auto r = runCase( name, s, st, false );
			++cases;
			if ( r.nontrivial )
			{
				++nontrivial;
				shapes.insert( r.shape );
			}
			for ( auto & v : r.viols )
			{
				if ( ++seen[v.cat + "|" + v.sig] > 3 ) continue;
				printf( "V\t%s\t%" PRIu64 "\t%s\t%s\t%s\n", name.c_str(), uint64_t( s ), clean( v.cat ).c_str(), clean( v.sig ).c_str(), clean( v.msg ).c_str() );
				fflush( stdout );
			}
			if ( r.nontrivial && samples < 1 && !r.summary.empty() )
			{
				++samples;
				printf( "M\t%" PRIu64 "\t%s\n", uint64_t( s ), clean( r.summary ).c_str() );
			}
		}
		for ( auto & [k, n] : st.n ) printf( "S\t%s\t%" PRIu64 "\n", clean( k ).c_str(), n );
		for ( auto h : shapes ) printf( "H\t%" PRIx64 "\n", h );
		printf( "E\t%" PRIu64 "\t%" PRIu64 "\n", cases, nontrivial );
		fflush( stdout );
		return 0;
	}
	fprintf( stderr, "usage: mon list | one NAME SEED | tri NAME FROM TO | run NAME FROM TO PROGRESS\n" );
	return 3;
}
